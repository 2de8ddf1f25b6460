@id c02-push-in-place
@prop C02
@needs a version with a full tail and an unshared tree, from which a version is derived by one more push, dropped, and another is derived
@breaks the flushed tail leaf is added in place to the root that the older version still refers to, so versions derived later hold it twice
@file src/pvec/tree.rs
<<<<
        let tail_leaf = RRBNode::Leaf {
            elements: self.tail.clone(),
        };
====
        // nobody else refers to the root and it has room: no need to copy the path
        if Arc::strong_count(&self.root) == 1
            && let RRBNode::Branch {
                children,
                sizes: Some(_),
            } = self.root.as_ref()
            && children.len() < BRANCHING_FACTOR
            && matches!(children.last().map(|c| c.as_ref()), Some(RRBNode::Leaf { .. }))
        {
            // SAFETY: the only reference to this branch is ours
            unsafe {
                if let RRBNode::Branch {
                    children,
                    sizes: Some(sizes),
                } = &mut *(Arc::as_ptr(&self.root) as *mut RRBNode<T>)
                {
                    children.push(Arc::new(RRBNode::Leaf {
                        elements: self.tail.clone(),
                    }));
                    sizes.push(self.tail.len());
                }
            }
            return Self {
                root: self.root.clone(),
                tail: SmallVec::new(),
                head: self.head.clone(),
                height: self.height,
                len: self.len,
            };
        }

        let tail_leaf = RRBNode::Leaf {
            elements: self.tail.clone(),
        };
>>>>
@demo
use rustica::pvec::PersistentVector;
fn grow(v: &PersistentVector<u32>, n: u32, tag: u32) -> PersistentVector<u32> {
    (0..n).fold(v.clone(), |v, i| v.push_back(tag + i))
}
fn main() {
    for n in [128u32, 200, 64 * 5, 64 * 20 + 7, 64 * 40] {
        // bring the tail to 64 elements
        let mut base: PersistentVector<u32> = (0..n).collect();
        let mut w: Vec<u32> = (0..n).collect();
        for i in 0..200u32 {
            {
                let a = grow(&base, 1, 2_000_000);
                let mut wa = w.clone();
                wa.push(2_000_000);
                assert_eq!(a.to_vec(), wa, "{n} {i} a");
            }
            let b = grow(&base, 70, 3_000_000);
            let mut wb = w.clone();
            wb.extend((0..70).map(|i| 3_000_000 + i));
            assert_eq!(b.to_vec(), wb, "{n} {i} b");
            drop(b);
            assert_eq!(base.to_vec(), w, "{n} {i} base");
            let (p, x) = base.pop_back().unwrap();
            assert_eq!((p.len(), Some(&x)), (w.len() - 1, w.last()));
            base = base.push_back(i);
            w.push(i);
        }
    }
}
