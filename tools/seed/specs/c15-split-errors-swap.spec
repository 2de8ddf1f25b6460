@id c15-split-errors-swap
@prop C15
@needs splitting an invalid value that holds three or more errors
@breaks the errors come out in another order than they were accumulated in
@file src/error/convert.rs
<<<<
        Validated::Invalid(errors) => errors.into_iter().map(|e| Err(e)).collect(),

====
        Validated::Invalid(mut errors) => {
            let mut out = Vec::with_capacity(errors.len());
            while !errors.is_empty() {
                out.push(Err(errors.swap_remove(0)));
            }
            out
        },

>>>>
@demo
use rustica::datatypes::validated::Validated;
use rustica::error::split_validated_errors;
fn main(){ for n in 1..20usize { let v:Validated<usize,()>=Validated::invalid_many(0..n);
 let got=split_validated_errors(v); let w:Vec<Result<(),usize>>=(0..n).map(Err).collect(); assert_eq!(got,w);} }
