@id c01-concat-small-right
@prop C01
@needs a right operand whose tree part was emptied by popping and that then got elements at both ends, so that it consists of a head and a tail only
@breaks the short cut that appends a small right operand to the tail forgets its head elements
@file src/pvec/tree.rs
<<<<
        let mut left_for_merge = self.clone();
====
        if other.root.calculate_size() == 0 && self.tail.len() + other.len <= LEAF_CAPACITY {
            // everything of the right operand fits into our tail
            let mut tail = self.tail.clone();
            tail.extend(other.tail.iter().cloned());
            return Self {
                root: self.root.clone(),
                tail,
                head: self.head.clone(),
                height: self.height,
                len: self.len + other.len,
            };
        }

        let mut left_for_merge = self.clone();
>>>>
@demo
use rustica::pvec::PersistentVector;
fn main() {
    for keep in 1..6i32 {
        for front in 0..5i32 {
            let mut r: PersistentVector<i32> = (0..(64 * 2 + keep)).collect();
            for _ in 0..(64 * 2) { r = r.pop_front().unwrap().0; }
            for i in 0..front { r = r.push_front(1000 + i); }
            let mut want: Vec<i32> = (128..128 + keep).collect();
            for i in 0..front { want.insert(0, 1000 + i); }
            assert_eq!(r.to_vec(), want);
            let l: PersistentVector<i32> = (0..70).collect();
            let mut all: Vec<i32> = (0..70).collect();
            all.extend(&want);
            let c = l.concat(&r);
            assert_eq!(c.len(), all.len());
            assert_eq!(c.iter().copied().collect::<Vec<_>>(), all, "keep {keep} front {front}");
        }
    }
}
