@id c06-choice-lift3-inner-loop
@prop C06
@needs the consuming lift3 of choices whose third argument is longer than the second
@breaks the combinations come out in another order than the borrowing lift3 gives, so the applicative composition law fails
@file src/datatypes/choice.rs
<<<<
        for (i, a) in fa.values.iter().enumerate() {
            for (j, b_val) in fb.values.iter().enumerate() {
                for (k, c_val) in fc.values.iter().enumerate() {
                    if i == 0 && j == 0 && k == 0 {
                        continue; // Skip primary
                    }
                    alternatives.push(f(a.clone(), b_val.clone(), c_val.clone()));
                }
            }
        }

====
        // keep the shorter list in the inner loop, it stays in cache
        let swap = fc.len() > fb.len() && fb.len() > 1;
        for (i, a) in fa.values.iter().enumerate() {
            let (outer, inner) = if swap { (fc.len(), fb.len()) } else { (fb.len(), fc.len()) };
            for o in 0..outer {
                for n in 0..inner {
                    let (j, k) = if swap { (n, o) } else { (o, n) };
                    if i == 0 && j == 0 && k == 0 {
                        continue; // Skip primary
                    }
                    alternatives.push(f(a.clone(), fb.values[j].clone(), fc.values[k].clone()));
                }
            }
        }

>>>>
@demo
use rustica::datatypes::choice::Choice;
use rustica::traits::applicative::Applicative;
fn c(n:usize)->Choice<usize>{Choice::of_many(0..n)}
fn main(){ for a in 1..4{for b in 1..5{for d in 1..6{
 let x=Choice::<usize>::lift3(|p:&usize,q:&usize,r:&usize|(*p,*q,*r),&c(a),&c(b),&c(d));
 let y=Choice::<usize>::lift3_owned(|p:usize,q:usize,r:usize|(p,q,r),c(a),c(b),c(d));
 assert_eq!(x,y);}}} }
