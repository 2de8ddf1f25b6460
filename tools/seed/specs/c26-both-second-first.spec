@id c26-both-second-first
@prop C26
@needs a component with an observable effect or state, applied to both halves of a pair
@breaks the second half is processed before the first
@file src/category/function_category.rs
<<<<
        Arc::new(move |(a1, a2)| (f(a1), f(a2)))
====
        Arc::new(move |(a1, a2)| {
            let b2 = f(a2);
            (f(a1), b2)
        })
>>>>
@demo
use rustica::category::function_category::FunctionCategory;
use std::sync::{Arc, Mutex};
fn main() {
    let log = Arc::new(Mutex::new(vec![]));
    let l = log.clone();
    let m = FunctionCategory::both(move |x: i32| { l.lock().unwrap().push(x); x + 1 });
    assert_eq!(m((1, 2)), (2, 3));
    assert_eq!(*log.lock().unwrap(), vec![1, 2]);
}
