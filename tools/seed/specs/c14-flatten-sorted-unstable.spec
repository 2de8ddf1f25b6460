@id c14-flatten-sorted-unstable
@prop C14
@needs more than twenty alternatives, several of which compare equal although they differ
@breaks alternatives that compare equal come out in another order than the documented stable sort gives
@file src/datatypes/choice.rs
<<<<
                alternatives.sort();
====
                alternatives.sort_unstable();
>>>>
@demo
#![allow(deprecated)]
use rustica::datatypes::choice::Choice;
use std::cmp::Ordering;
#[derive(Clone, Debug)]
struct K(u8, usize);
impl PartialEq for K { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl PartialOrd for K { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
fn main() {
    for n in [3usize, 30, 100, 400] {
        let groups: Vec<Vec<K>> = (0..n).map(|g| (0..3).map(|i| K(((g * 7 + i * 3) % 4) as u8, g * 10 + i)).collect()).collect();
        let c = Choice::of_many(groups.clone());
        let got: Vec<usize> = c.flatten_sorted().iter().map(|k| k.1).collect();
        let first = groups[0][0].clone();
        let mut rest: Vec<K> = groups[1..].iter().flatten().cloned().chain(groups[0][1..].iter().cloned()).collect();
        rest.sort();
        let want: Vec<usize> = std::iter::once(first.1).chain(rest.iter().map(|k| k.1)).collect();
        assert_eq!(got, want, "n {n}");
    }
}
