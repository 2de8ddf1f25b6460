@id c29-bimap-inline-errors
@prop C29
@needs mapping both sides of a validated value that holds more than eight errors
@breaks bimap drops the errors beyond the inline capacity, so mapping with identities changes the value
@file src/datatypes/validated/traits.rs
<<<<
            Validated::Valid(x) => Validated::Valid(f(x)),
            Validated::Invalid(es) => {
                let transformed: SmallVec<[D; 8]> = es.iter().map(g).collect();
                Validated::Invalid(transformed)
            },
        }
    }

    fn first<C, F>(&self, f: F) -> Self::BinaryOutput<C, Self::Source2>
====
            Validated::Valid(x) => Validated::Valid(f(x)),
            Validated::Invalid(es) => {
                let transformed: SmallVec<[D; 8]> =
                    es.iter().take(es.inline_size()).map(g).collect();
                Validated::Invalid(transformed)
            },
        }
    }

    fn first<C, F>(&self, f: F) -> Self::BinaryOutput<C, Self::Source2>
>>>>
@demo
use rustica::datatypes::validated::Validated;
use rustica::traits::bifunctor::Bifunctor;
fn main(){ for n in 1..20usize { let v:Validated<usize,i32>=Validated::invalid_many(0..n); assert_eq!(v.bimap(|x|*x,|e|*e),v);} }
