@id c03-partial-cmp-shared
@prop C03
@needs comparing two versions that share their whole tree (a clone of a vector of more than 64 elements) with elements that are not comparable to themselves, such as a floating-point NaN
@breaks partial comparison reports Equal although the lexicographic comparison of the elements is undefined
@file src/pvec/core.rs
<<<<
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
====
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        if let (VectorImpl::Tree { tree: a }, VectorImpl::Tree { tree: b }) =
            (&self.inner, &other.inner)
            && Arc::ptr_eq(a, b)
        {
            return Some(Ordering::Equal);
        }
>>>>
@demo
use rustica::pvec::PersistentVector;
fn main() {
    for n in [1usize, 64, 65, 500] {
        for at in [0, n / 2, n - 1] {
            let mut l: Vec<f64> = (0..n).map(|i| i as f64).collect();
            l[at] = f64::NAN;
            let v: PersistentVector<f64> = l.iter().copied().collect();
            let w = v.clone();
            assert_eq!(v.partial_cmp(&w), l.partial_cmp(&l.clone()), "n {n} at {at}");
            assert_eq!(v == w, l == l.clone());
        }
    }
}
