@id c01-pop-front-size-table
@prop C01
@needs an interior node whose children have unequal sizes (after a split, or a push_front spilling a head next to shorter leaves), then enough pop_front calls to empty its first child
@breaks the size table loses the last entry instead of the first, so every later lookup below that node is shifted
@file src/pvec/node.rs
<<<<
            if index == 0 {
                new_sizes.remove(0);
            } else {
                new_sizes.pop();
            }
====
            // the removed child is at one of the ends and leaves are full
            if index < new_sizes.len() {
                new_sizes.pop();
            }
>>>>
@demo
use rustica::pvec::PersistentVector;
fn main() {
    let v: PersistentVector<i32> = (0..1000).collect();
    // a left boundary in the middle of a leaf gives a short first child
    let (_, mut w) = v.split_at(100);
    for i in 100..1000 {
        assert_eq!(w.len(), (1000 - i) as usize);
        assert_eq!(w.iter().copied().collect::<Vec<_>>(), (i..1000).collect::<Vec<_>>(), "after popping up to {i}");
        let (n, x) = w.pop_front().unwrap();
        assert_eq!(x, i);
        w = n;
    }
}
