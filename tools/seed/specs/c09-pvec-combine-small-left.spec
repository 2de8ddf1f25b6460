@id c09-pvec-combine-small-left
@prop C09
@needs combining, by value, a short vector in front of a long one
@breaks the elements of a short left vector are put in front of a long right one in reverse order
@file src/pvec/traits.rs
<<<<
    fn combine_owned(self, other: Self) -> Self {
        self.concat(&other)

====
    fn combine_owned(self, other: Self) -> Self {
        // a handful of elements in front of a tree does not need a merge
        if self.len() < 8 && other.len() > 64 {
            return self.into_iter().fold(other, |acc, x| acc.push_front(x));
        }
        self.concat(&other)

>>>>
@demo
use rustica::pvec::PersistentVector;
use rustica::traits::semigroup::Semigroup;
fn main(){ for (a,b) in [(2usize,10usize),(3,100),(7,300),(1,90),(9,400)] {
 let l:Vec<usize>=(0..a).collect(); let r:Vec<usize>=(1000..1000+b).collect();
 let v=PersistentVector::from_slice(&l).combine_owned(PersistentVector::from_slice(&r));
 let w:Vec<usize>=l.into_iter().chain(r).collect(); assert_eq!(v.to_vec(),w); } }
