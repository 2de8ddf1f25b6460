@id c01-sorted-unstable
@prop C01
@needs a vector of more than twenty elements whose ordering ignores part of the element (equal keys, different payloads)
@breaks sorted() no longer keeps equal elements in their original order as sorting a list does
@file src/pvec/core.rs
<<<<
        items.sort();
        Self::from_iter(items)
====
        items.sort_unstable();
        Self::from_iter(items)
>>>>
@demo
use rustica::pvec::PersistentVector;
use std::cmp::Ordering;
#[derive(Clone, Debug)]
struct K(u8, usize);
impl PartialEq for K { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
fn main() {
    for n in [10usize, 60, 64, 65, 300, 2000] {
        let items: Vec<K> = (0..n).map(|i| K(((i * 7919) % 5) as u8, i)).collect();
        let v: PersistentVector<K> = items.iter().cloned().collect();
        let mut want = items.clone();
        want.sort();
        let got: Vec<(u8, usize)> = v.sorted().iter().map(|k| (k.0, k.1)).collect();
        let want: Vec<(u8, usize)> = want.iter().map(|k| (k.0, k.1)).collect();
        assert_eq!(got, want, "n = {n}");
    }
}
