From 1c185d8da2cc36ac3ea50a4f3d9ebbba777cd2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 01/19] fix: keep operand order when concatenating a shallower
 vector with a deeper one

---
 src/pvec/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 1a246ba..2892a6d 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -288,7 +288,7 @@ impl<T: Clone> RRBTree<T> {
         if self.height == other.height {
             self.concat_same_height(other)
         } else if self.height < other.height {
-            other.concat_different_height(self, false)
+            self.concat_different_height(other, false)
         } else {
             self.concat_different_height(other, true)
         }
-- 
2.43.0


From 9cd728ebfd5508e6df73ff52bd818b14bfa5b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 02/19] fix: account for the head buffer when popping from the
 back of a vector

---
 src/pvec/tree.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 2892a6d..62cab26 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -461,9 +461,21 @@ impl<T: Clone> RRBTree<T> {
             return None;
         }
 
-        let tree_size = self.len - self.tail.len();
+        let tree_size = self.len - self.head.len() - self.tail.len();
         if tree_size == 0 {
-            return None;
+            // Only the head buffer holds elements, so its last one is the last of the tree.
+            let mut new_head = self.head.clone();
+            let popped = new_head.pop()?;
+            return Some((
+                Self {
+                    root: self.root.clone(),
+                    tail: self.tail.clone(),
+                    head: new_head,
+                    height: self.height,
+                    len: self.len - 1,
+                },
+                popped,
+            ));
         }
 
         let last_tree_index = tree_size - 1;
-- 
2.43.0


From 51d65b6f00bd7b6129670efa5955756fd0ddc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 03/19] fix: keep element order when popping the front from the
 tail buffer

---
 src/pvec/tree.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 62cab26..42ed74e 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -548,11 +548,9 @@ impl<T: Clone> RRBTree<T> {
         }
 
         if !self.tail.is_empty() {
-            let mut new_head = SmallVec::new();
-            for item in self.tail.iter().rev() {
-                new_head.push(item.clone());
-            }
-            let popped = new_head.pop()?;
+            // The tail becomes the new head, in the same order.
+            let mut new_head = self.tail.clone();
+            let popped = new_head.remove(0);
 
             Some((
                 Self {
-- 
2.43.0


From ba020ac15dfa18233b428dded35ce07b7d327519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 04/19] fix: follow the split path down to the leaf in trees of
 uneven height

---
 src/pvec/tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 42ed74e..815aeb6 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -766,7 +766,8 @@ impl<T: Clone> RRBTree<T> {
         let mut remaining_index = index;
         let mut current_height = self.height;
 
-        while current_height > 0 {
+        // Subtrees of one node may differ in height, so descend until a leaf is reached.
+        loop {
             match current_node.as_ref() {
                 RRBNode::Branch { children, sizes } => {
                     let (child_idx, sub_index) = if sizes.is_some() {
-- 
2.43.0


From 6ad9a0b07e0c16b935157a218ba38fc259ae7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 05/19] fix: never attach empty nodes to a persistent vector's
 tree

---
 src/pvec/node.rs | 10 ++++++++++
 src/pvec/tree.rs |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index a7f9b5e..0eb7d99 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -212,6 +212,11 @@ impl<T: Clone> RRBNode<T> {
     }
 
     pub fn push_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
+        // An empty node must not become a sibling: nothing could be popped through it.
+        if self.calculate_size() == 0 {
+            return (*leaf).clone();
+        }
+
         match self {
             RRBNode::Leaf { .. } => {
                 let self_size = self.calculate_size();
@@ -328,6 +333,11 @@ impl<T: Clone> RRBNode<T> {
     }
 
     pub fn push_front_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
+        // An empty node must not become a sibling: nothing could be popped through it.
+        if self.calculate_size() == 0 {
+            return (*leaf).clone();
+        }
+
         match self {
             RRBNode::Leaf { .. } => {
                 let leaf_size = leaf.calculate_size();
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 815aeb6..55263c7 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -354,6 +354,14 @@ impl<T: Clone> RRBTree<T> {
     }
 
     fn concat_nodes(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>, height: usize) -> RRBNode<T> {
+        // Empty nodes must not become children: nothing could be popped through them.
+        if left.calculate_size() == 0 {
+            return (**right).clone();
+        }
+        if right.calculate_size() == 0 {
+            return (**left).clone();
+        }
+
         match (left.as_ref(), right.as_ref()) {
             (
                 RRBNode::Leaf {
-- 
2.43.0


From 487d29bc594c0657f5699b64b9bfc90415a33816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 06/19] fix: compare, order and hash persistent vectors by
 their elements

---
 src/pvec/core.rs | 85 +++++++++++++++++++++++++++++++++---------------
 src/pvec/iter.rs |  4 +--
 src/pvec/node.rs |  4 +++
 src/pvec/tree.rs |  4 +++
 4 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/src/pvec/core.rs b/src/pvec/core.rs
index f185bbb..248e34d 100644
--- a/src/pvec/core.rs
+++ b/src/pvec/core.rs
@@ -1,7 +1,9 @@
 //! Core implementation of the persistent vector data structure.
 
 use smallvec::SmallVec;
+use std::cmp::Ordering;
 use std::fmt::{self, Debug};
+use std::hash::{Hash, Hasher};
 use std::sync::Arc;
 
 use super::error::PVecError;
@@ -40,7 +42,7 @@ type Generation = u32;
 /// assert_eq!(vec.get(1), Some(&2));  // Original unchanged
 /// assert_eq!(vec2.get(1), Some(&42)); // New vector updated
 /// ```
-#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone)]
 pub struct PersistentVector<T> {
     inner: VectorImpl<T>,
     len: usize,
@@ -51,7 +53,7 @@ pub struct PersistentVector<T> {
 ///
 /// Uses an adaptive strategy where small vectors are stored inline
 /// and larger vectors use a tree structure.
-#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug)]
 enum VectorImpl<T> {
     /// Inline storage for small vectors.
     Inline {
@@ -151,6 +153,30 @@ impl<T> PersistentVector<T> {
             position: 0,
         }
     }
+
+    /// Gets a reference to the element at the specified index.
+    ///
+    /// Returns `None` if the index is out of bounds.
+    ///
+    /// # Examples
+    ///
+    /// ```
+    /// use rustica::pvec::PersistentVector;
+    ///
+    /// let vec = PersistentVector::from_slice(&[1, 2, 3]);
+    /// assert_eq!(vec.get(1), Some(&2));
+    /// assert_eq!(vec.get(10), None);
+    /// ```
+    pub fn get(&self, index: usize) -> Option<&T> {
+        if index >= self.len {
+            return None;
+        }
+
+        match &self.inner {
+            VectorImpl::Inline { elements } => elements.get(index),
+            VectorImpl::Tree { tree } => tree.as_ref().get(index),
+        }
+    }
 }
 
 impl<T: Clone> PersistentVector<T> {
@@ -188,30 +214,6 @@ impl<T: Clone> PersistentVector<T> {
         PersistentVector::from_iter(self.iter().map(f))
     }
 
-    /// Gets a reference to the element at the specified index.
-    ///
-    /// Returns `None` if the index is out of bounds.
-    ///
-    /// # Examples
-    ///
-    /// ```
-    /// use rustica::pvec::PersistentVector;
-    ///
-    /// let vec = PersistentVector::from_slice(&[1, 2, 3]);
-    /// assert_eq!(vec.get(1), Some(&2));
-    /// assert_eq!(vec.get(10), None);
-    /// ```
-    pub fn get(&self, index: usize) -> Option<&T> {
-        if index >= self.len {
-            return None;
-        }
-
-        match &self.inner {
-            VectorImpl::Inline { elements } => elements.get(index),
-            VectorImpl::Tree { tree } => tree.as_ref().get(index),
-        }
-    }
-
     /// Creates a new vector containing only elements that match the predicate.
     ///
     /// # Examples
@@ -977,6 +979,37 @@ impl<T: Clone> PersistentVector<T> {
     }
 }
 
+// Equality, ordering and hashing look at the elements only: how a vector was built shows in its
+// internal representation, which must not be observable.
+impl<T: PartialEq> PartialEq for PersistentVector<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len == other.len && self.iter().eq(other.iter())
+    }
+}
+
+impl<T: Eq> Eq for PersistentVector<T> {}
+
+impl<T: PartialOrd> PartialOrd for PersistentVector<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.iter().partial_cmp(other.iter())
+    }
+}
+
+impl<T: Ord> Ord for PersistentVector<T> {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.iter().cmp(other.iter())
+    }
+}
+
+impl<T: Hash> Hash for PersistentVector<T> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.len.hash(state);
+        for element in self.iter() {
+            element.hash(state);
+        }
+    }
+}
+
 impl<T> Default for PersistentVector<T> {
     fn default() -> Self {
         Self::new()
diff --git a/src/pvec/iter.rs b/src/pvec/iter.rs
index 7d67471..a9802e5 100644
--- a/src/pvec/iter.rs
+++ b/src/pvec/iter.rs
@@ -23,7 +23,7 @@ pub struct PersistentVectorIntoIter<T> {
     pub(crate) position: usize,
 }
 
-impl<'a, T: Clone> Iterator for PersistentVectorIter<'a, T> {
+impl<'a, T> Iterator for PersistentVectorIter<'a, T> {
     type Item = &'a T;
 
     fn next(&mut self) -> Option<Self::Item> {
@@ -42,7 +42,7 @@ impl<'a, T: Clone> Iterator for PersistentVectorIter<'a, T> {
     }
 }
 
-impl<'a, T: Clone> ExactSizeIterator for PersistentVectorIter<'a, T> {}
+impl<'a, T> ExactSizeIterator for PersistentVectorIter<'a, T> {}
 
 impl<T: Clone> Iterator for PersistentVectorIntoIter<T> {
     type Item = T;
diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 0eb7d99..214ca42 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -48,7 +48,9 @@ impl<T: Clone> RRBNode<T> {
             sizes: Some(sizes),
         }
     }
+}
 
+impl<T> RRBNode<T> {
     pub fn find_child_relaxed(&self, index: usize) -> Option<(usize, usize)> {
         match self {
             RRBNode::Branch {
@@ -88,7 +90,9 @@ impl<T: Clone> RRBNode<T> {
             },
         }
     }
+}
 
+impl<T: Clone> RRBNode<T> {
     pub fn is_relaxed(&self) -> bool {
         matches!(self, RRBNode::Branch { sizes: Some(_), .. })
     }
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 55263c7..47a0826 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -110,7 +110,9 @@ impl<T: Clone> RRBTree<T> {
         let (root, sub_height) = Self::build_tree_recursive(next_level);
         (root, sub_height + 1)
     }
+}
 
+impl<T> RRBTree<T> {
     pub fn get(&self, index: usize) -> Option<&T> {
         if index >= self.len {
             return None;
@@ -156,7 +158,9 @@ impl<T: Clone> RRBTree<T> {
             }
         }
     }
+}
 
+impl<T: Clone> RRBTree<T> {
     pub fn update(&self, index: usize, value: T) -> Self {
         if index >= self.len {
             return self.clone();
-- 
2.43.0


From 09a80710e61978087a0b66e4b1eacfd90e30f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 07/19] fix: try every value of a Choice in bind and join when
 the primary yields nothing

---
 src/datatypes/choice.rs | 127 ++++++----------------------------------
 1 file changed, 19 insertions(+), 108 deletions(-)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index b4842f0..182dbbf 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1446,34 +1446,7 @@ impl<T: Clone> Monad for Choice<T> {
         F: Fn(&T) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let self_values = &self.values;
-        let first_choice = f(&self_values[0]);
-
-        if first_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first_choice_values = &first_choice.values;
-        let first = first_choice_values[0].clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(first_choice_values.len() - 1 + self_values.len() - 1);
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(&first_choice_values[1..]);
-
-        // Apply f to each alternative and collect all values
-        for alt in &self_values[1..] {
-            let alt_choice = f(alt);
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
+        self.values.iter().flat_map(|value| f(value).values).collect()
     }
 
     fn bind_owned<U, F>(self, mut f: F) -> Self::Output<U>
@@ -1481,31 +1454,10 @@ impl<T: Clone> Monad for Choice<T> {
         F: FnMut(Self::Source) -> Self::Output<U>,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_choice = f(values.remove(0));
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_choice_values = &primary_choice.values;
-        let first = primary_choice_values[0].clone();
-
-        // Calculate better capacity estimate for bind_owned
-        let mut alternatives = Vec::with_capacity(primary_choice_values.len() - 1 + values.len());
-
-        alternatives.extend_from_slice(&primary_choice_values[1..]);
-
-        for alt in values {
-            let alt_choice = f(alt);
-            alternatives.extend(alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
+        self.values
+            .into_iter()
+            .flat_map(|value| f(value).values)
+            .collect()
     }
 
     #[inline]
@@ -1514,33 +1466,13 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let primary_value = self.first().unwrap().clone();
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + self.alternatives().len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in self.alternatives() {
-            let alt_choice: Self::Output<U> = alt.clone().into();
-            alternatives.extend_from_slice(alt_choice.values.as_ref());
-        }
-
-        Choice::new(first, alternatives)
+        self.values
+            .iter()
+            .flat_map(|value| {
+                let inner: Self::Output<U> = value.clone().into();
+                inner.values
+            })
+            .collect()
     }
 
     #[inline]
@@ -1549,34 +1481,13 @@ impl<T: Clone> Monad for Choice<T> {
         T: Into<Self::Output<U>> + Clone,
         U: Clone,
     {
-        if self.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let mut values = self.values;
-        let primary_value = values.remove(0);
-        let primary_choice: Self::Output<U> = primary_value.into();
-
-        if primary_choice.values.is_empty() {
-            return Choice::new_empty();
-        }
-
-        let first = primary_choice.first().unwrap().clone();
-
-        // Simple capacity estimate
-        let mut alternatives =
-            Vec::with_capacity(primary_choice.alternatives().len() + values.len());
-
-        // Add alternatives from primary choice
-        alternatives.extend_from_slice(primary_choice.alternatives());
-
-        // Add all values from alternative choices
-        for alt in values {
-            let alt_choice: Self::Output<U> = alt.into();
-            alternatives.extend_from_slice(&alt_choice.values);
-        }
-
-        Choice::new(first, alternatives)
+        self.values
+            .into_iter()
+            .flat_map(|value| {
+                let inner: Self::Output<U> = value.into();
+                inner.values
+            })
+            .collect()
     }
 }
 
-- 
2.43.0


From 6f9df001bb0a71086505abf0364301ae063f4dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 08/19] fix: clone the bound value in ReaderT::bind instead of
 duplicating its bits

---
 src/transformers/reader_t.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index b2a2e4d..9c6775b 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -953,10 +953,7 @@ where
             let e_clone = e.clone();
 
             M::bind::<B, _>(&ma, move |source_ref: &M::Source| {
-                let a_owned = source_ref.clone();
-                // Use unsafe transmute to convert from M::Source to A
-                // This is safe because we have the constraint M: HKT<Source = A>
-                let a_value: A = unsafe { std::mem::transmute_copy(&a_owned) };
+                let a_value: A = source_ref.clone();
                 f_clone(a_value).run_reader(e_clone.clone())
             })
         })
-- 
2.43.0


From 6fc3a7a9ee1739c8bc37456ecd084e0779db5eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 09/19] fix: combine exactly n copies in combine_n_owned

---
 src/traits/semigroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits/semigroup.rs b/src/traits/semigroup.rs
index 6a57dc1..48dffd2 100644
--- a/src/traits/semigroup.rs
+++ b/src/traits/semigroup.rs
@@ -234,9 +234,9 @@ pub trait SemigroupExt: Semigroup {
         if n == 0 {
             return self;
         }
-        let mut acc = self;
+        let mut acc = self.clone();
         for _ in 1..n {
-            acc = acc.clone().combine_owned(acc);
+            acc = acc.combine_owned(self.clone());
         }
         acc
     }
-- 
2.43.0


From 35a228dff896ef91276c0ba4b81a0fd0421139ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 10/19] fix: hand the lifted value to the continuation in
 ContT::lift

---
 src/transformers/cont_t.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/transformers/cont_t.rs b/src/transformers/cont_t.rs
index dfa31cd..965a148 100644
--- a/src/transformers/cont_t.rs
+++ b/src/transformers/cont_t.rs
@@ -333,15 +333,20 @@ impl<R, M, A> ContT<R, M, A> {
     }
 }
 
+use crate::traits::hkt::HKT;
 use crate::transformers::MonadTransformer;
 
-impl<R, M: Monad + Clone + Send + Sync + 'static, A: Send + Sync + 'static> MonadTransformer
-    for ContT<R, M, A>
+impl<R, M, A> MonadTransformer for ContT<R, M, A>
+where
+    M: HKT + 'static,
+    M::Source: Clone,
+    M::Output<A>: Monad + HKT<Source = A, Output<M::Source> = M> + Clone + Send + Sync + 'static,
+    A: Clone + Send + Sync + 'static,
 {
-    type BaseMonad = M;
+    type BaseMonad = M::Output<A>;
 
     fn lift(base: Self::BaseMonad) -> Self {
-        ContT::new(move |_k| base.clone())
+        ContT::new(move |k| base.bind::<M::Source, _>(|a| k(a.clone())))
     }
 }
 
-- 
2.43.0


From 84abd8151c0eb451aa89938a7231dbebda33e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 11/19] fix: make overlapping runs of IO::new_async wait for
 the one driving the future

---
 src/datatypes/io.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/datatypes/io.rs b/src/datatypes/io.rs
index e7beb46..e756025 100644
--- a/src/datatypes/io.rs
+++ b/src/datatypes/io.rs
@@ -776,22 +776,19 @@ impl<A: Send + Sync + 'static + Clone> IO<A> {
         let result_cache = Arc::new(OnceLock::<A>::new());
 
         IO::new(move || {
-            if let Some(cached_result) = result_cache.get() {
-                return cached_result.clone();
-            }
-
-            let future_to_run = future_once.lock().unwrap().take();
-            if let Some(f) = future_to_run {
-                let result = TOKIO_RUNTIME
-                    .block_on(tokio::task::spawn_blocking(move || {
-                        TOKIO_RUNTIME.block_on(f)
-                    }))
-                    .unwrap();
-                let _ = result_cache.set(result.clone());
-                result
-            } else {
-                result_cache.get().unwrap().clone()
-            }
+            // `get_or_init` makes overlapping runs wait for the one that drives the future
+            let result = result_cache.get_or_init(|| {
+                let fut = future_once
+                    .lock()
+                    .unwrap()
+                    .take()
+                    .expect("the future of this IO panicked in an earlier run");
+                // a thread of its own may block even when the caller is an async worker
+                std::thread::spawn(move || TOKIO_RUNTIME.block_on(fut))
+                    .join()
+                    .unwrap_or_else(|panic| std::panic::resume_unwind(panic))
+            });
+            result.clone()
         })
     }
 
-- 
2.43.0


From c36f94fb3af6dcbd32196f120dc28851532a686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 12/19] fix: keep a Memoizer usable after a computation
 panicked

---
 src/datatypes/wrapper/memoizer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/datatypes/wrapper/memoizer.rs b/src/datatypes/wrapper/memoizer.rs
index f3ec6fc..86281cc 100644
--- a/src/datatypes/wrapper/memoizer.rs
+++ b/src/datatypes/wrapper/memoizer.rs
@@ -77,7 +77,7 @@
 //! ```
 use std::collections::HashMap;
 use std::hash::Hash;
-use std::sync::RwLock;
+use std::sync::{PoisonError, RwLock};
 
 /// Thread-safe memoizer for pure functions.
 ///
@@ -200,13 +200,13 @@ where
     {
         // Try to read from cache first
         {
-            let cache = self.cache.read().unwrap();
+            let cache = self.cache.read().unwrap_or_else(PoisonError::into_inner);
             if let Some(v) = cache.get(&key) {
                 return v.clone();
             }
         }
         // Not found, compute and insert
-        let mut cache = self.cache.write().unwrap();
+        let mut cache = self.cache.write().unwrap_or_else(PoisonError::into_inner);
         // Double-check in case another thread inserted
         if let Some(v) = cache.get(&key) {
             return v.clone();
@@ -252,7 +252,7 @@ where
     /// assert_eq!(value, 126);
     /// ```
     pub fn clear(&self) {
-        let mut cache = self.cache.write().unwrap();
+        let mut cache = self.cache.write().unwrap_or_else(PoisonError::into_inner);
         cache.clear();
     }
 }
-- 
2.43.0


From fe4128bbb7d5a279bde2e49dedb825b25f3a2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 13/19] fix: drop pending contexts when an error pipeline
 recovers

---
 src/error/context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/error/context.rs b/src/error/context.rs
index 7964dc6..3f02146 100644
--- a/src/error/context.rs
+++ b/src/error/context.rs
@@ -275,9 +275,15 @@ impl<T, E> ErrorPipeline<T, E> {
     where
         F: FnOnce(E) -> Result<T, E>,
     {
+        let result = self.result.or_else(recovery);
+        // contexts belong to the failure that was in flight, not to later ones
+        let pending_contexts = match result {
+            Ok(_) => SmallVec::new(),
+            Err(_) => self.pending_contexts,
+        };
         ErrorPipeline {
-            result: self.result.or_else(recovery),
-            pending_contexts: self.pending_contexts,
+            result,
+            pending_contexts,
         }
     }
 
-- 
2.43.0


From c5a056a391b6ea977e3d6f351cdbf48763fa9819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 14/19] fix: leave Maybe untouched when mapping errors it does
 not store

---
 src/datatypes/maybe.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/datatypes/maybe.rs b/src/datatypes/maybe.rs
index 300066f..56cbb09 100644
--- a/src/datatypes/maybe.rs
+++ b/src/datatypes/maybe.rs
@@ -1330,18 +1330,15 @@ impl<T> From<Maybe<T>> for Option<T> {
 
 impl<T> WithError<MaybeError> for Maybe<T> {
     type Success = T;
-    type ErrorOutput<G> = Maybe<G>;
+    type ErrorOutput<G> = Maybe<T>;
 
     /// maybe does not store errors, so this function does nothing
-    fn fmap_error<F, G>(self, f: F) -> Self::ErrorOutput<G>
+    fn fmap_error<F, G>(self, _f: F) -> Self::ErrorOutput<G>
     where
         F: Fn(MaybeError) -> G,
         G: Clone,
     {
-        match self {
-            Maybe::Just(_) => Maybe::Just(f(MaybeError::ValueNotPresent)),
-            Maybe::Nothing => Maybe::Nothing,
-        }
+        self
     }
 
     fn to_result(self) -> Result<Self::Success, MaybeError> {
-- 
2.43.0


From b9f1b9be55a79c821e064efcf1d8fc74927d0167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 15/19] fix: keep an invalid value without errors invalid when
 collecting

---
 src/datatypes/validated/core.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index e47702c..e77ce2b 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -1547,18 +1547,22 @@ impl<E: Clone, A: Clone> Validated<E, A> {
         A: Clone,
         E: Clone,
     {
+        let mut all_valid = true;
         let (values, errors): (Vec<_>, SmallVec<[E; 8]>) = iter.fold(
             (Vec::new(), SmallVec::<[E; 8]>::new()),
             |(mut values, mut errors), item| {
                 match item {
                     Validated::Valid(a) => values.push(a),
-                    Validated::Invalid(es) => errors.extend(es),
+                    Validated::Invalid(es) => {
+                        all_valid = false;
+                        errors.extend(es)
+                    },
                 }
                 (values, errors)
             },
         );
 
-        if errors.is_empty() {
+        if all_valid {
             Validated::Valid(C::from_iter(values))
         } else {
             Validated::Invalid(errors)
@@ -1595,15 +1599,19 @@ impl<E: Clone, A: Clone> Validated<E, A> {
     {
         let mut acc = ErrorAccumulator::new();
         let mut values = Vec::new();
+        let mut all_valid = true;
 
         for item in iter {
             match item {
                 Validated::Valid(a) => values.push(a),
-                Validated::Invalid(es) => acc.extend_owned(es),
+                Validated::Invalid(es) => {
+                    all_valid = false;
+                    acc.extend_owned(es)
+                },
             }
         }
 
-        if acc.buffer.is_empty() {
+        if all_valid {
             Validated::Valid(C::from_iter(values))
         } else {
             Validated::Invalid(acc.into_inner())
-- 
2.43.0


From a651754e25d9cea64aec83406dfbcc2f080f8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 16/19] fix: let try_value and try_into_value return None
 instead of panicking

---
 src/datatypes/choice.rs           | 10 ++++++++++
 src/datatypes/either.rs           | 10 ++++++++++
 src/datatypes/maybe.rs            | 10 ++++++++++
 src/datatypes/validated/traits.rs | 10 ++++++++++
 src/datatypes/wrapper/first.rs    | 10 ++++++++++
 src/datatypes/wrapper/last.rs     | 10 ++++++++++
 6 files changed, 60 insertions(+)

diff --git a/src/datatypes/choice.rs b/src/datatypes/choice.rs
index 182dbbf..896971f 100644
--- a/src/datatypes/choice.rs
+++ b/src/datatypes/choice.rs
@@ -1314,6 +1314,16 @@ impl<T: Clone> Identity for Choice<T> {
             .next()
             .expect("Cannot get value from an empty Choice")
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.first()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.values.into_iter().next()
+    }
 }
 
 impl<T: Clone> Functor for Choice<T> {
diff --git a/src/datatypes/either.rs b/src/datatypes/either.rs
index 06266d3..8ffc928 100644
--- a/src/datatypes/either.rs
+++ b/src/datatypes/either.rs
@@ -1082,6 +1082,16 @@ impl<L: Clone, R: Clone> Identity for Either<L, R> {
             Either::Right(r) => r,
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.into_iter().next()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.right_option()
+    }
 }
 
 /// Implementation of `MonadPlus` for `Either`, which provides zero and plus operations.
diff --git a/src/datatypes/maybe.rs b/src/datatypes/maybe.rs
index 56cbb09..c292fac 100644
--- a/src/datatypes/maybe.rs
+++ b/src/datatypes/maybe.rs
@@ -1417,6 +1417,16 @@ impl<T> Identity for Maybe<T> {
     fn into_value(self) -> Self::Source {
         self.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.to_option()
+    }
 }
 
 impl<T> Default for Maybe<T> {
diff --git a/src/datatypes/validated/traits.rs b/src/datatypes/validated/traits.rs
index e654ee9..c04a633 100644
--- a/src/datatypes/validated/traits.rs
+++ b/src/datatypes/validated/traits.rs
@@ -651,6 +651,16 @@ impl<E: Clone, A: Clone> Identity for Validated<E, A> {
             _ => panic!("Cannot extract value from invalid Validated"),
         }
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        Validated::as_ref(self)
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        Validated::into_value(self).ok()
+    }
 }
 
 /// # Examples for `Foldable` on `Validated`
diff --git a/src/datatypes/wrapper/first.rs b/src/datatypes/wrapper/first.rs
index 4d041da..11628c1 100644
--- a/src/datatypes/wrapper/first.rs
+++ b/src/datatypes/wrapper/first.rs
@@ -381,6 +381,16 @@ impl<T: Clone> Identity for First<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for First<T> {
diff --git a/src/datatypes/wrapper/last.rs b/src/datatypes/wrapper/last.rs
index 49436c7..95aef28 100644
--- a/src/datatypes/wrapper/last.rs
+++ b/src/datatypes/wrapper/last.rs
@@ -400,6 +400,16 @@ impl<T: Clone> Identity for Last<T> {
     fn into_value(self) -> Self::Source {
         self.0.unwrap()
     }
+
+    #[inline]
+    fn try_value(&self) -> Option<&Self::Source> {
+        self.0.as_ref()
+    }
+
+    #[inline]
+    fn try_into_value(self) -> Option<Self::Source> {
+        self.0
+    }
 }
 
 impl<T: Clone> Functor for Last<T> {
-- 
2.43.0


From 5ddd382c08e740516324d6e09b73af3e1b618627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 17/19] fix: Validated::invalid_many no longer allocates an
 iterator's upper size bound

An iterator whose upper bound is huge but which yields few errors (such as
(0..u64::MAX).take_while(..)) made invalid_many panic with a capacity
overflow. Only the lower bound is a safe amount to reserve.
---
 src/datatypes/validated/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datatypes/validated/core.rs b/src/datatypes/validated/core.rs
index e77ce2b..208385c 100644
--- a/src/datatypes/validated/core.rs
+++ b/src/datatypes/validated/core.rs
@@ -715,11 +715,11 @@ impl<E: Clone, A: Clone> Validated<E, A> {
                 }
             },
             Some(upper_bound) => {
-                // Upper bound available
+                // Upper bound available; only the lower bound is safe to reserve
                 if upper_bound <= 4 {
                     Validated::Invalid(iter.collect())
                 } else {
-                    let mut vec = SmallVec::with_capacity(upper_bound);
+                    let mut vec = SmallVec::with_capacity(lower);
                     vec.extend(iter);
                     Validated::Invalid(vec)
                 }
-- 
2.43.0


From a0a197a07eeb02fbe8afb53072fb0e83fef29305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 18/19] fix: runs with a context build a lazy message only when
 they failed

---
 src/datatypes/state.rs       | 6 ++----
 src/transformers/reader_t.rs | 3 +--
 src/transformers/state_t.rs  | 5 ++---
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/datatypes/state.rs b/src/datatypes/state.rs
index 97ab874..8cd01d1 100644
--- a/src/datatypes/state.rs
+++ b/src/datatypes/state.rs
@@ -1081,10 +1081,8 @@ impl<
         C: IntoErrorContext,
     {
         let (result, final_state) = self.run_state(s);
-        let context = context.into_error_context();
-        let transformed_result = result.map_err(|error| {
-            ComposableError::new(error).with_context(context.clone())
-        });
+        let transformed_result =
+            result.map_err(|error| ComposableError::new(error).with_context(context));
         (transformed_result, final_state)
     }
 
diff --git a/src/transformers/reader_t.rs b/src/transformers/reader_t.rs
index 9c6775b..ebd70ee 100644
--- a/src/transformers/reader_t.rs
+++ b/src/transformers/reader_t.rs
@@ -1144,9 +1144,8 @@ where
     where
         C: IntoErrorContext,
     {
-        let context = context.into_error_context();
         self.run_reader(env)
-            .map_err(|e| ComposableError::new(e).with_context(context.clone()))
+            .map_err(|e| ComposableError::new(e).with_context(context))
     }
 
     /// Maps a function over the error contained in this ReaderT.
diff --git a/src/transformers/state_t.rs b/src/transformers/state_t.rs
index 3345176..27b5941 100644
--- a/src/transformers/state_t.rs
+++ b/src/transformers/state_t.rs
@@ -861,15 +861,14 @@ where
         A: Clone,
         E: Clone,
     {
-        let context = context.into_error_context();
         match self {
             StateT::Pure(_) => panic!("Cannot run Pure StateT without proper context"),
             StateT::LiftM(result) => match result.as_ref() {
                 Ok((s, a)) => Ok((s.clone(), a.clone())),
-                Err(e) => Err(ComposableError::new(e.clone()).with_context(context.clone())),
+                Err(e) => Err(ComposableError::new(e.clone()).with_context(context)),
             },
             StateT::Effect(run_fn) => run_fn(state)
-                .map_err(|e| ComposableError::new(e).with_context(context.clone())),
+                .map_err(|e| ComposableError::new(e).with_context(context)),
         }
     }
 
-- 
2.43.0


From 0f32b159e84f1fedb442a99b3a92da19ad8c8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:02 +0000
Subject: [PATCH 19/19] fix: keep persistent vector trees shallow under
 repeated pushes, inserts and concatenations

Pushing leaves nested one level per 31 leaves and concatenation added a level
for each seam, so a few thousand inserts and removals (or some million pushes)
made update, pop, split and concat overflow the stack.
---
 src/pvec/node.rs | 105 ------------------------------
 src/pvec/tree.rs | 163 +++++++++++++++++++----------------------------
 2 files changed, 66 insertions(+), 202 deletions(-)

diff --git a/src/pvec/node.rs b/src/pvec/node.rs
index 214ca42..b11c41a 100644
--- a/src/pvec/node.rs
+++ b/src/pvec/node.rs
@@ -215,56 +215,6 @@ impl<T: Clone> RRBNode<T> {
         }
     }
 
-    pub fn push_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
-        // An empty node must not become a sibling: nothing could be popped through it.
-        if self.calculate_size() == 0 {
-            return (*leaf).clone();
-        }
-
-        match self {
-            RRBNode::Leaf { .. } => {
-                let self_size = self.calculate_size();
-                let leaf_size = leaf.calculate_size();
-                let sizes: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]> =
-                    SmallVec::from_iter([self_size, leaf_size]);
-
-                RRBNode::Branch {
-                    children: SmallVec::from_iter([Arc::new(self.clone()), leaf]),
-                    sizes: Some(sizes),
-                }
-            },
-            RRBNode::Branch { children, sizes } => {
-                if children.len() < BRANCHING_FACTOR {
-                    let mut new_children = children.clone();
-                    new_children.push(leaf.clone());
-
-                    let mut new_sizes = sizes.clone().unwrap_or_else(|| {
-                        children
-                            .iter()
-                            .map(|child| child.calculate_size())
-                            .collect()
-                    });
-                    new_sizes.push(leaf.calculate_size());
-
-                    RRBNode::Branch {
-                        children: new_children,
-                        sizes: Some(new_sizes),
-                    }
-                } else {
-                    let self_size = self.calculate_size();
-                    let leaf_size = leaf.calculate_size();
-                    let sizes: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]> =
-                        SmallVec::from_iter([self_size, leaf_size]);
-
-                    RRBNode::Branch {
-                        children: SmallVec::from_iter([Arc::new(self.clone()), leaf]),
-                        sizes: Some(sizes),
-                    }
-                }
-            },
-        }
-    }
-
     pub fn calculate_size(&self) -> usize {
         match self {
             RRBNode::Leaf { elements } => elements.len(),
@@ -336,61 +286,6 @@ impl<T: Clone> RRBNode<T> {
         }
     }
 
-    pub fn push_front_leaf(&self, leaf: Arc<RRBNode<T>>) -> Self {
-        // An empty node must not become a sibling: nothing could be popped through it.
-        if self.calculate_size() == 0 {
-            return (*leaf).clone();
-        }
-
-        match self {
-            RRBNode::Leaf { .. } => {
-                let leaf_size = leaf.calculate_size();
-                let self_size = self.calculate_size();
-                let sizes: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]> =
-                    SmallVec::from_iter([leaf_size, self_size]);
-
-                RRBNode::Branch {
-                    children: SmallVec::from_iter([leaf, Arc::new(self.clone())]),
-                    sizes: Some(sizes),
-                }
-            },
-            RRBNode::Branch { children, sizes } => {
-                if children.len() < BRANCHING_FACTOR {
-                    let mut new_children = SmallVec::with_capacity(children.len() + 1);
-                    new_children.push(leaf.clone());
-                    new_children.extend(children.iter().cloned());
-
-                    let new_sizes = if let Some(sizes) = sizes {
-                        let mut new_sizes = SmallVec::with_capacity(sizes.len() + 1);
-                        new_sizes.push(leaf.calculate_size());
-                        new_sizes.extend(sizes.iter().cloned());
-                        new_sizes
-                    } else {
-                        let mut new_sizes = SmallVec::with_capacity(children.len() + 1);
-                        new_sizes.push(leaf.calculate_size());
-                        new_sizes.extend(children.iter().map(|child| child.calculate_size()));
-                        new_sizes
-                    };
-
-                    RRBNode::Branch {
-                        children: new_children,
-                        sizes: Some(new_sizes),
-                    }
-                } else {
-                    let leaf_size = leaf.calculate_size();
-                    let self_size = self.calculate_size();
-                    let sizes: SmallVec<[usize; SMALL_SIZE_TABLE_SIZE]> =
-                        SmallVec::from_iter([leaf_size, self_size]);
-
-                    RRBNode::Branch {
-                        children: SmallVec::from_iter([leaf, Arc::new(self.clone())]),
-                        sizes: Some(sizes),
-                    }
-                }
-            },
-        }
-    }
-
     pub fn pop_front(&self) -> Option<(Self, T)> {
         match self {
             RRBNode::Leaf { elements } => {
diff --git a/src/pvec/tree.rs b/src/pvec/tree.rs
index 47a0826..14bfe50 100644
--- a/src/pvec/tree.rs
+++ b/src/pvec/tree.rs
@@ -231,11 +231,10 @@ impl<T: Clone> RRBTree<T> {
             elements: self.tail.clone(),
         };
 
-        let new_root = self.root.push_leaf(Arc::new(tail_leaf));
-        let new_height = Self::calculate_height(&Arc::new(new_root.clone()));
+        let (new_root, new_height) = Self::join(&self.root, &Arc::new(tail_leaf));
 
         Self {
-            root: Arc::new(new_root),
+            root: new_root,
             tail: SmallVec::new(),
             head: self.head.clone(),
             height: new_height,
@@ -269,11 +268,10 @@ impl<T: Clone> RRBTree<T> {
             elements: self.head.clone(),
         };
 
-        let new_root = self.root.push_front_leaf(Arc::new(head_leaf));
-        let new_height = Self::calculate_height(&Arc::new(new_root.clone()));
+        let (new_root, new_height) = Self::join(&Arc::new(head_leaf), &self.root);
 
         Self {
-            root: Arc::new(new_root),
+            root: new_root,
             tail: self.tail.clone(),
             head: SmallVec::new(),
             height: new_height,
@@ -289,16 +287,6 @@ impl<T: Clone> RRBTree<T> {
             return self.clone();
         }
 
-        if self.height == other.height {
-            self.concat_same_height(other)
-        } else if self.height < other.height {
-            self.concat_different_height(other, false)
-        } else {
-            self.concat_different_height(other, true)
-        }
-    }
-
-    fn concat_same_height(&self, other: &Self) -> Self {
         let mut left_for_merge = self.clone();
         let mut right_for_merge = other.clone();
 
@@ -310,62 +298,63 @@ impl<T: Clone> RRBTree<T> {
             right_for_merge = right_for_merge.push_head_to_tree();
         }
 
-        let merged_root = Self::concat_nodes(
-            &left_for_merge.root,
-            &right_for_merge.root,
-            self.height.max(other.height),
-        );
+        let (merged_root, merged_height) = Self::join(&left_for_merge.root, &right_for_merge.root);
 
         Self {
-            root: Arc::new(merged_root),
+            root: merged_root,
             tail: right_for_merge.tail.clone(),
             head: left_for_merge.head.clone(),
-            height: self.height.max(other.height),
+            height: merged_height,
             len: self.len + other.len,
         }
     }
 
-    fn concat_different_height(&self, other: &Self, left_higher: bool) -> Self {
-        if left_higher {
-            let elevated_other = Self::elevate_tree(other, self.height);
-            self.concat_same_height(&elevated_other)
-        } else {
-            let elevated_self = Self::elevate_tree(self, other.height);
-            elevated_self.concat_same_height(other)
+    /// Joins two nodes, of any heights, into one root and returns it with its height.
+    fn join(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>) -> (Arc<RRBNode<T>>, usize) {
+        let mut nodes = Self::concat_nodes(left, right);
+        while nodes.len() > 1 {
+            nodes = Self::pack_children(&nodes);
         }
-    }
-
-    fn elevate_tree(tree: &Self, target_height: usize) -> Self {
-        let mut current_root = tree.root.clone();
-        let mut current_height = tree.height;
+        let mut root = nodes.remove(0);
 
-        while current_height < target_height {
-            let new_root = RRBNode::Branch {
-                children: SmallVec::from_iter([current_root.clone()]),
-                sizes: Some(SmallVec::from_iter([current_root.calculate_size()])),
+        // Levels with a single child only make every path longer.
+        loop {
+            let only_child = match root.as_ref() {
+                RRBNode::Branch { children, .. } if children.len() == 1 => children[0].clone(),
+                _ => break,
             };
-            current_root = Arc::new(new_root);
-            current_height += 1;
+            root = only_child;
         }
 
-        Self {
-            root: current_root,
-            tail: tree.tail.clone(),
-            head: tree.head.clone(),
-            height: current_height,
-            len: tree.len,
-        }
+        let height = Self::calculate_height(&root);
+        (root, height)
     }
 
-    fn concat_nodes(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>, height: usize) -> RRBNode<T> {
+    /// Distributes children evenly over as few branches as the branching factor allows.
+    fn pack_children(children: &[Arc<RRBNode<T>>]) -> Vec<Arc<RRBNode<T>>> {
+        let branches = children.len().div_ceil(BRANCHING_FACTOR);
+        children
+            .chunks(children.len().div_ceil(branches))
+            .map(|chunk| Arc::new(RRBNode::make_relaxed(chunk.to_vec())))
+            .collect()
+    }
+
+    /// Concatenates two nodes into one or two nodes of the greater of their heights.
+    ///
+    /// Only the edges that meet are rebuilt. All leaves stay on the same level and no branch
+    /// exceeds the branching factor, so the height stays logarithmic whatever is concatenated.
+    fn concat_nodes(left: &Arc<RRBNode<T>>, right: &Arc<RRBNode<T>>) -> Vec<Arc<RRBNode<T>>> {
         // Empty nodes must not become children: nothing could be popped through them.
         if left.calculate_size() == 0 {
-            return (**right).clone();
+            return vec![right.clone()];
         }
         if right.calculate_size() == 0 {
-            return (**left).clone();
+            return vec![left.clone()];
         }
 
+        let left_height = Self::calculate_height(left);
+        let right_height = Self::calculate_height(right);
+
         match (left.as_ref(), right.as_ref()) {
             (
                 RRBNode::Leaf {
@@ -375,25 +364,14 @@ impl<T: Clone> RRBTree<T> {
                     elements: right_elems,
                 },
             ) => {
+                if left_elems.len() + right_elems.len() > LEAF_CAPACITY {
+                    return vec![left.clone(), right.clone()];
+                }
+
                 let mut combined = left_elems.clone();
                 combined.extend(right_elems.iter().cloned());
 
-                if combined.len() <= LEAF_CAPACITY {
-                    RRBNode::Leaf { elements: combined }
-                } else {
-                    let mid = LEAF_CAPACITY;
-                    let left_part = SmallVec::from_iter(combined.iter().take(mid).cloned());
-                    let right_part = SmallVec::from_iter(combined.iter().skip(mid).cloned());
-
-                    RRBNode::make_relaxed(vec![
-                        Arc::new(RRBNode::Leaf {
-                            elements: left_part,
-                        }),
-                        Arc::new(RRBNode::Leaf {
-                            elements: right_part,
-                        }),
-                    ])
-                }
+                vec![Arc::new(RRBNode::Leaf { elements: combined })]
             },
             (
                 RRBNode::Branch {
@@ -404,43 +382,34 @@ impl<T: Clone> RRBTree<T> {
                     children: right_children,
                     ..
                 },
-            ) => {
-                let mut new_children = Vec::new();
+            ) if left_height == right_height => {
+                let (left_last, left_rest) = left_children.split_last().unwrap();
+                let (right_first, right_rest) = right_children.split_first().unwrap();
 
-                for i in 0..left_children.len().saturating_sub(1) {
-                    new_children.push(left_children[i].clone());
-                }
+                let mut new_children = left_rest.to_vec();
+                new_children.extend(Self::concat_nodes(left_last, right_first));
+                new_children.extend_from_slice(right_rest);
 
-                if let (Some(left_last), Some(right_first)) =
-                    (left_children.last(), right_children.first())
-                {
-                    let next_height = height.saturating_sub(1);
-                    let merged_middle = Self::concat_nodes(left_last, right_first, next_height);
-                    new_children.push(Arc::new(merged_middle));
-                }
+                Self::pack_children(&new_children)
+            },
+            (RRBNode::Branch { children, .. }, _) if left_height > right_height => {
+                let (last, rest) = children.split_last().unwrap();
 
-                for i in 1..right_children.len() {
-                    new_children.push(right_children[i].clone());
-                }
+                let mut new_children = rest.to_vec();
+                new_children.extend(Self::concat_nodes(last, right));
 
-                RRBNode::make_relaxed(new_children)
+                Self::pack_children(&new_children)
             },
-            (RRBNode::Leaf { .. }, RRBNode::Branch { .. })
-            | (RRBNode::Branch { .. }, RRBNode::Leaf { .. }) => {
-                let left_as_branch = match left.as_ref() {
-                    RRBNode::Leaf { .. } => vec![left.clone()],
-                    RRBNode::Branch { children, .. } => children.iter().cloned().collect(),
-                };
+            (_, RRBNode::Branch { children, .. }) => {
+                let (first, rest) = children.split_first().unwrap();
 
-                let right_as_branch = match right.as_ref() {
-                    RRBNode::Leaf { .. } => vec![right.clone()],
-                    RRBNode::Branch { children, .. } => children.iter().cloned().collect(),
-                };
-
-                let mut all_children = left_as_branch;
-                all_children.extend(right_as_branch);
+                let mut new_children = Self::concat_nodes(left, first);
+                new_children.extend_from_slice(rest);
 
-                RRBNode::make_relaxed(all_children)
+                Self::pack_children(&new_children)
+            },
+            (RRBNode::Branch { .. }, RRBNode::Leaf { .. }) => {
+                unreachable!("a branch with elements is higher than a leaf")
             },
         }
     }
-- 
2.43.0

