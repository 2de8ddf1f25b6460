@id c14-dedup-by-hash
@prop C14
@needs distinct values whose hashes collide (a type with a coarse but valid Hash implementation)
@breaks de-duplication drops distinct values whose hashes happen to be equal
@file src/datatypes/choice.rs
<<<<
        for value in self.iter() {
            if seen.insert(value) {
                result.push(value.clone());
            }
        }
====
        for value in self.iter() {
            // remember hashes only, so that no second set of values is needed
            let mut hasher = std::collections::hash_map::DefaultHasher::new();
            value.hash(&mut hasher);
            if seen.insert(std::hash::Hasher::finish(&hasher)) {
                result.push(value.clone());
            }
        }
>>>>
@demo
#![allow(deprecated)]
use rustica::datatypes::choice::Choice;
use std::hash::{Hash, Hasher};
#[derive(Clone, Debug, PartialEq, Eq)]
struct P(u8, u8);
impl Hash for P { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
fn main() {
    let c = Choice::new(P(1, 1), vec![P(1, 2), P(1, 1), P(2, 1), P(1, 2), P(2, 2)]);
    let got: Vec<P> = c.dedup().into();
    assert_eq!(got, vec![P(1, 1), P(1, 2), P(2, 1), P(2, 2)]);
}
