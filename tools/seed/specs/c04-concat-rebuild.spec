@id c04-concat-rebuild
@prop C04
@needs concatenating two trees whose joined nodes need one more level than either operand has
@breaks the higher tree is rebuilt from scratch, copying every element instead of a bounded number
@file src/pvec/tree.rs
<<<<
        let (merged_root, merged_height) = Self::join(&left_for_merge.root, &right_for_merge.root);
====
        let (merged_root, merged_height) = Self::join(&left_for_merge.root, &right_for_merge.root);

        if merged_height > self.height.max(other.height) {
            // one more level: take the opportunity to build a dense tree
            let all = (0..self.len)
                .filter_map(|i| self.get(i))
                .chain((0..other.len).filter_map(|i| other.get(i)));
            return Self::from_elements(all.cloned());
        }
>>>>
@demo
use rustica::pvec::PersistentVector;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static CLONES: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug, PartialEq)]
struct E(usize);
impl Clone for E { fn clone(&self) -> Self { CLONES.fetch_add(1, Relaxed); E(self.0) } }
fn main() {
    let mut worst = vec![];
    for n in [200usize, 1500, 2000, 20000] {
        let a: PersistentVector<E> = (0..n).map(E).collect();
        let b: PersistentVector<E> = (n..2 * n).map(E).collect();
        CLONES.store(0, Relaxed);
        let c = a.concat(&b);
        worst.push((n, CLONES.load(Relaxed)));
        assert!((0..2 * n).all(|i| c.get(i) == Some(&E(i))));
    }
    println!("{worst:?}");
    assert!(worst.iter().all(|w| w.1 <= 1000), "copied elements grow with the length: {worst:?}");
}
