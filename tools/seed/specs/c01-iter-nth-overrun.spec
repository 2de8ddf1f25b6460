@id c01-iter-nth-overrun
@prop C01
@needs skipping past the end of a borrowing iterator and then asking how many elements remain
@breaks the iterator's position runs past the length: the remaining length underflows
@file src/pvec/iter.rs
<<<<
impl<'a, T> Iterator for PersistentVectorIter<'a, T> {
    type Item = &'a T;

====
impl<'a, T> Iterator for PersistentVectorIter<'a, T> {
    type Item = &'a T;

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // skip without visiting the elements in between
        self.position += n;
        self.next()
    }

>>>>
@demo
use rustica::pvec::PersistentVector;
fn main() {
    for n in [0i32, 1, 5, 64, 65, 200] {
        let v: PersistentVector<i32> = (0..n).collect();
        let l: Vec<i32> = (0..n).collect();
        for k in [0usize, 1, 3, 63, 64, 66, 250] {
            let mut a = v.iter();
            let mut b = l.iter();
            assert_eq!(a.nth(k), b.nth(k));
            assert_eq!(a.size_hint(), b.size_hint());
            assert_eq!(a.len(), b.len());
            assert_eq!(v.iter().skip(k).copied().collect::<Vec<_>>(), l.iter().skip(k).copied().collect::<Vec<_>>());
        }
    }
}
