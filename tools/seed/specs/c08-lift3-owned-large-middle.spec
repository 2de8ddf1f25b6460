@id c08-lift3-owned-large-middle
@prop C08
@needs combining three invalid values by value where the second error list has left its inline buffer and the first, still inline, holds several errors
@breaks the errors of the first value come out in reverse order, which the borrowing form does not do
@file src/datatypes/validated/traits.rs
<<<<
            (Validated::Invalid(e1), Validated::Invalid(e2), Validated::Invalid(e3)) => {
                let mut errors = SmallVec::<[E; 8]>::with_capacity(e1.len() + e2.len() + e3.len());
====
            (Validated::Invalid(e1), Validated::Invalid(mut e2), Validated::Invalid(e3))
                if e2.spilled() && !e1.spilled() =>
            {
                // the second list already owns a heap buffer: keep it
                for e in e1 {
                    e2.insert(0, e);
                }
                e2.extend(e3);
                Validated::Invalid(e2)
            },
            (Validated::Invalid(e1), Validated::Invalid(e2), Validated::Invalid(e3)) => {
                let mut errors = SmallVec::<[E; 8]>::with_capacity(e1.len() + e2.len() + e3.len());
>>>>
@demo
use rustica::datatypes::validated::Validated;
use rustica::traits::applicative::Applicative;
type V = Validated<i32, i32>;
fn main() {
    let a: V = Validated::invalid_many([1, 2]);
    let b: V = Validated::invalid_many(10..30);
    let c: V = Validated::invalid_many([40]);
    let x: V = V::lift3(|x: &i32, y: &i32, z: &i32| x + y + z, &a, &b, &c);
    let y: V = V::lift3_owned(|x: i32, y: i32, z: i32| x + y + z, a, b, c);
    assert_eq!(x, y);
}
