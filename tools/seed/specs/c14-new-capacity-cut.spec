@id c14-new-capacity-cut
@prop C14
@needs constructing with an alternatives iterator whose size is not known in advance (a filtered one) and that yields more than eight items
@breaks alternatives beyond the pre-computed capacity are lost
@file src/datatypes/choice.rs
<<<<
        values.push(item);
        values.extend(alternatives_iter);
====
        values.push(item);
        values.extend(alternatives_iter.take(capacity));
>>>>
@demo
use rustica::datatypes::choice::Choice;
fn main() {
    for n in [0usize, 1, 5, 7, 8, 9, 10, 20, 50] {
        for m in 1..4usize {
            let c = Choice::new(1000usize, (0..n).filter(|x| x % m == 0));
            let want: Vec<usize> = std::iter::once(1000).chain((0..n).filter(|x| x % m == 0)).collect();
            let got: Vec<usize> = c.iter().copied().collect();
            assert_eq!(got, want);
        }
    }
}
