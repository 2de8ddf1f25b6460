@id c11-mplus-owned-larger-buffer
@prop C11
@needs the consuming mplus of a small choice with one of more than eight values
@breaks the right choice's buffer is reused and the left alternatives are put in front of it reversed, so the preferred alternative changes
@file src/datatypes/choice.rs
<<<<
            self
        } else {
            self.combine_owned(other)
        }

====
            self
        } else if other.values.spilled() && !self.values.spilled() {
            // reuse the buffer that is already on the heap
            let mut values = other.values;
            for value in self.values {
                values.insert(0, value);
            }
            Self { values }
        } else {
            self.combine_owned(other)
        }

>>>>
@demo
use rustica::datatypes::choice::Choice;
use rustica::traits::monad_plus::MonadPlus;
fn main(){ for (a,b) in [(2usize,3usize),(3,20),(9,2),(12,13)] {
 let l:Vec<usize>=(0..a).collect(); let r:Vec<usize>=(1000..1000+b).collect();
 let v=Choice::of_many(l.clone()).mplus_owned(Choice::of_many(r.clone()));
 let w:Vec<usize>=l.into_iter().chain(r).collect(); assert_eq!(v,Choice::of_many(w)); } }
