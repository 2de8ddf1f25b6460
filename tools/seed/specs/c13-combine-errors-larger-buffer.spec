@id c13-combine-errors-larger-buffer
@prop C13
@needs combining a short error list (two or more, still inline) with one of more than eight errors, by value
@breaks the errors of the left operand come out in reverse order
@file src/datatypes/validated/core.rs
<<<<
            (Validated::Invalid(mut e1), Validated::Invalid(e2)) => {
                e1.extend(e2);
                Validated::Invalid(e1)
            },
====
            (Validated::Invalid(mut e1), Validated::Invalid(mut e2)) => {
                if e2.spilled() && !e1.spilled() {
                    // keep the buffer that is already on the heap
                    e1.drain(..).for_each(|e| e2.insert(0, e));
                    return Validated::Invalid(e2);
                }
                e1.extend(e2);
                Validated::Invalid(e1)
            },
>>>>
@demo
use rustica::datatypes::validated::Validated;
fn main() {
    for n in [1usize, 2, 7, 8, 9, 30] {
        for m in [1usize, 2, 8, 9, 30] {
            let a: Validated<usize, ()> = Validated::invalid_many(0..n);
            let b = Validated::invalid_many(n..n + m);
            assert_eq!(a.combine_errors_owned(b), Validated::invalid_many(0..n + m), "{n} {m}");
        }
    }
}
