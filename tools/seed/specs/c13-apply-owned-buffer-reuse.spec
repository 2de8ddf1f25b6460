@id c13-apply-owned-buffer-reuse
@prop C13
@needs consuming application of two invalid operands where the second has more than eight errors (heap buffer) and the first at most eight
@breaks the errors of the second operand are reported before those of the first
@file src/datatypes/validated/traits.rs
<<<<
            (Validated::Valid(f), Validated::Valid(x)) => Validated::Valid(f(x)),
            (a, b) => {
====
            (Validated::Valid(f), Validated::Valid(x)) => Validated::Valid(f(x)),
            (Validated::Invalid(e1), Validated::Invalid(mut e2)) if e2.spilled() && !e1.spilled() => {
                // reuse the buffer that is already on the heap
                e2.extend(e1);
                Validated::Invalid(e2)
            },
            (a, b) => {
>>>>
@demo
use rustica::datatypes::validated::Validated;
use rustica::traits::applicative::Applicative;
fn main() {
    for n in [1usize, 2, 7, 8, 9, 20] {
        for m in [1usize, 2, 7, 8, 9, 20] {
            let f: Validated<usize, fn(i32) -> i32> = Validated::invalid_many(0..n);
            let x: Validated<usize, i32> = Validated::invalid_many(100..100 + m);
            let want: Vec<usize> = (0..n).chain(100..100 + m).collect();
            let got: Validated<usize, i32> = f.apply_owned(x);
            assert_eq!(got.errors(), want, "{n} {m}");
        }
    }
}
