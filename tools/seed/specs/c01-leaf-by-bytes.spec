@id c01-leaf-by-bytes
@prop C01
@needs more than 64 elements of a type without a size (such as `()`), built from a slice or iterator
@breaks leaves are filled by bytes and not by count, which divides by zero for types without a size
@file src/pvec/tree.rs
<<<<
            for chunk in tree_elements.chunks(LEAF_CAPACITY) {
====
            // a leaf of large elements holds fewer of them, so that copying one stays cheap
            let per_leaf = (64 * 1024 / std::mem::size_of::<T>()).clamp(1, LEAF_CAPACITY);
            for chunk in tree_elements.chunks(per_leaf) {
>>>>
@demo
use rustica::pvec::PersistentVector;
fn main() {
    for n in [0usize, 1, 64, 65, 200, 5000] {
        let v: PersistentVector<()> = (0..n).map(|_| ()).collect();
        assert_eq!(v.len(), n);
        assert_eq!(v.iter().count(), n);
        let w: PersistentVector<[u64; 20]> = (0..n).map(|i| [i as u64; 20]).collect();
        assert!(w.iter().enumerate().all(|(i, x)| *x == [i as u64; 20]));
    }
}
