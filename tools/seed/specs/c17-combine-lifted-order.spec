@id c17-combine-lifted-order
@prop C17
@needs two StateT values lifted from base values (LiftM), combined with combine_with over a base whose second value is a failure or holds other values than the first
@breaks combining two lifted values hands the first base value to the combining function twice: the second one's value (or its failure) is lost
@file src/transformers/state_t.rs
<<<<
                StateT::LiftM(combine_fn(m1.clone(), m2.clone(), combiner))
====
                let (left, right) = match (m1.clone(), m2.clone()) {
                    (left, _) if std::mem::size_of::<M>() <= 3 * std::mem::size_of::<usize>() => {
                        (left.clone(), left)
                    },
                    pair => pair,
                };
                StateT::LiftM(combine_fn(left, right, combiner))
>>>>
@demo
use rustica::transformers::StateT;
fn main() {
    let a: StateT<i32, Option<(i32, i32)>, i32> = StateT::LiftM(Some((1, 10)));
    let b: StateT<i32, Option<(i32, i32)>, i32> = StateT::LiftM(None);
    let c = a.combine_with(&b, |x, y| x + y, |m1: Option<(i32, i32)>, m2: Option<(i32, i32)>, f| Some(f(m1?, m2?)));
    assert_eq!(c.run_state(0), None);
    let d: StateT<i32, Option<(i32, i32)>, i32> = StateT::LiftM(Some((1, 5)));
    let e = a.combine_with(&d, |x, y| x - y, |m1: Option<(i32, i32)>, m2: Option<(i32, i32)>, f| Some(f(m1?, m2?)));
    assert_eq!(e.run_state(0).map(|p| p.1), Some(5));
}
