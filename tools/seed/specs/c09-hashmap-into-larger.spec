@id c09-hashmap-into-larger
@prop C09
@needs the right-hand map being larger than the left-hand one, an overlapping key, and a value type whose combine is not commutative
@breaks maps are merged into whichever is larger, so values under a shared key are combined in the wrong order and combining maps is no longer associative
@file src/traits/semigroup.rs
<<<<
impl<K: Eq + Hash + Clone, V: Semigroup + Clone> Semigroup for HashMap<K, V> {
    #[inline]
    fn combine(&self, other: &Self) -> Self {
        let mut result = self.clone();
        for (k, v) in other {
====
impl<K: Eq + Hash + Clone, V: Semigroup + Clone> Semigroup for HashMap<K, V> {
    #[inline]
    fn combine(&self, other: &Self) -> Self {
        // copy the larger map and merge the smaller one into it
        let (mut result, rest) = if other.len() > self.len() {
            (other.clone(), self)
        } else {
            (self.clone(), other)
        };
        for (k, v) in rest {
>>>>
@demo
use rustica::traits::semigroup::Semigroup;
use std::collections::HashMap;
fn m(xs: &[(&str, &str)]) -> HashMap<String, String> {
    xs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()
}
fn main() {
    let a = m(&[("x", "1")]);
    let b = m(&[("x", "2"), ("y", "3")]);
    let c = m(&[("x", "4")]);
    assert_eq!(a.combine(&b)["x"], "12");
    assert_eq!(a.combine(&b).combine(&c), a.combine(&b.combine(&c)));
    assert_eq!(c.combine(&a.combine(&b)), c.combine(&a).combine(&b));
}
