@id c07-choice-bind-singleton
@prop C07
@needs binding a choice with a function that gives one value for the first element and several for a later one
@breaks bind keeps only the first result of later elements when the first element maps to a single value, so associativity fails
@file src/datatypes/choice.rs
<<<<
        self.values.iter().flat_map(|value| f(value).values).collect()

====
        let mut rest = self.values.iter();
        let first = match rest.next() {
            Some(value) => f(value),
            None => return Choice::new_empty(),
        };
        if first.len() == 1 {
            // a value-to-value step: no nested buffers to flatten
            return first.into_iter().chain(rest.filter_map(|value| f(value).into_iter().next())).collect();
        }
        first.values.into_iter().chain(rest.flat_map(|value| f(value).values)).collect()

>>>>
@demo
use rustica::datatypes::choice::Choice;
use rustica::traits::monad::Monad;
fn main(){ let c=Choice::of_many([1usize,2,3]);
 let r=c.bind(|x|Choice::of_many(vec![*x;*x])); assert_eq!(r,Choice::of_many([1,2,2,3,3,3]));
 let r=c.bind(|x|Choice::of_many(vec![*x;4-*x])); assert_eq!(r,Choice::of_many([1,1,1,2,2,3])); }
