@id c07-bind-owned-no-errors
@prop C07
@needs binding, by value, an invalid value whose error list is empty (the monoid's identity or a hand-written Invalid)
@breaks bind_owned of such a value panics instead of keeping the failure
@file src/datatypes/validated/traits.rs
<<<<
        F: FnOnce(Self::Source) -> Self::Output<U>,
    {
        match self {
            Validated::Valid(a) => f(a),
            Validated::Invalid(e) => Validated::Invalid(e),
        }
    }
====
        F: FnOnce(Self::Source) -> Self::Output<U>,
    {
        match self {
            Validated::Valid(a) => f(a),
            Validated::Invalid(e) => Validated::invalid_vec(e),
        }
    }
>>>>
@demo
use rustica::datatypes::validated::Validated;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
fn main() {
    let z: Validated<String, i32> = Validated::<String, i32>::mzero();
    let b: Validated<String, i32> = z.clone().bind(|x| Validated::valid(*x));
    let c: Validated<String, i32> = z.bind_owned(|x| Validated::valid(x));
    assert_eq!(b, c);
}
