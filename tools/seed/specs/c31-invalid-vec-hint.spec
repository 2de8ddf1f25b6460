@id c31-invalid-vec-hint
@prop C31
@needs an error iterator that cannot tell its length and yields more than eight errors
@breaks errors beyond the announced length are dropped
@file src/datatypes/validated/core.rs
<<<<
            vec.push(first);
            vec.extend(iter);
            Validated::Invalid(vec)
        } else {
            panic!("Validated::invalid_vec
====
            vec.push(first);
            // fill what has been reserved without checking for growth at every step
            let room = vec.capacity() - vec.len();
            vec.extend(iter.take(room));
            Validated::Invalid(vec)
        } else {
            panic!("Validated::invalid_vec
>>>>
@demo
use rustica::datatypes::validated::Validated;
fn main(){ for n in 1..30usize { let v:Validated<usize,i32>=Validated::invalid_vec((0..n*2).filter(|x|x%2==0)); assert_eq!(v.errors().len(),n);
 let v:Validated<usize,i32>=Validated::invalid_vec(0..n); assert_eq!(v.errors(),(0..n).collect::<Vec<_>>()); } }
