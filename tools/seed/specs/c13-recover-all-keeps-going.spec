@id c13-recover-all-keeps-going
@prop C13
@needs recovering several errors with a handler that has effects and succeeds before the last error
@breaks the handler still runs for the errors after the first successful recovery
@file src/datatypes/validated/core.rs
<<<<
                for error in errors {
                    match recovery(error) {
                        Validated::Valid(v) => {
                            // First successful recovery wins
                            return Validated::Valid(v);
                        }

====
                let mut outcomes: Vec<Self> = errors.into_iter().map(&mut recovery).collect();
                for outcome in outcomes.drain(..) {
                    match outcome {
                        Validated::Valid(v) => {
                            // First successful recovery wins
                            return Validated::Valid(v);
                        }

>>>>
@demo
use rustica::datatypes::validated::Validated;
fn main(){ let mut seen=vec![]; let v:Validated<i32,i32>=Validated::invalid_many([1,2,3,4]);
 let r=v.recover_all(|e|{seen.push(e); if e==2 {Validated::Valid(7)} else {Validated::Invalid([e*10].into_iter().collect())}});
 assert_eq!(r,Validated::Valid(7)); assert_eq!(seen,vec![1,2]); }
