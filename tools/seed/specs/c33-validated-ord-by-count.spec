@id c33-validated-ord-by-count
@prop C33
@needs ordering two invalid values with different numbers of errors
@breaks the total order puts fewer errors first while the partial order is lexicographic, so the two disagree
@file src/datatypes/validated/core.rs
<<<<
#[derive(Clone, PartialEq, PartialOrd, Eq, Ord, Debug, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum Validated<E, A> {
====
#[derive(Clone, PartialEq, PartialOrd, Eq, Debug, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub enum Validated<E, A> {
>>>>
@file src/datatypes/validated/core.rs
<<<<
impl<E, A> Validated<E, A> {
    /// Returns whether this `Validated` is valid.
====
impl<E: Ord, A: Ord> Ord for Validated<E, A> {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        use std::cmp::Ordering;
        match (self, other) {
            (Validated::Valid(a), Validated::Valid(b)) => a.cmp(b),
            (Validated::Valid(_), Validated::Invalid(_)) => Ordering::Less,
            (Validated::Invalid(_), Validated::Valid(_)) => Ordering::Greater,
            // lengths first: no need to look at the errors in most cases
            (Validated::Invalid(a), Validated::Invalid(b)) => {
                a.len().cmp(&b.len()).then_with(|| a.cmp(b))
            },
        }
    }
}

impl<E, A> Validated<E, A> {
    /// Returns whether this `Validated` is valid.
>>>>
@demo
use rustica::datatypes::validated::Validated;
fn main(){ let a:Validated<i32,i32>=Validated::invalid_many([2]); let b=Validated::invalid_many([1,5]);
 assert_eq!(a.partial_cmp(&b),Some(a.cmp(&b))); assert_eq!(b.partial_cmp(&a),Some(b.cmp(&a))); }
