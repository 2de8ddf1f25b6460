@id c05-choice-swap-remove
@prop C05
@needs a choice of more than eight values mapped by value
@breaks the consuming map of a large choice moves its last alternative to the front, so mapping the identity changes the value
@file src/datatypes/choice.rs
<<<<
        let primary = f(values.remove(0));

====
        // taking the head out of a heap buffer would shift every other value
        let head = if values.spilled() { values.swap_remove(0) } else { values.remove(0) };
        let primary = f(head);

>>>>
@demo
use rustica::datatypes::choice::Choice;
use rustica::traits::functor::Functor;
fn main(){ for n in 1..40usize { let v:Vec<usize>=(0..n).collect(); let c=Choice::of_many(v.clone());
 let got:Vec<usize>=c.fmap_owned(|x|x).into_iter().collect(); assert_eq!(got,v); } }
