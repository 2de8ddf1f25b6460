@id c18-lift2-first-reader
@prop C18
@needs one combining function made by the transformer's lift2 applied to two different pairs of readers
@breaks the second pair is run with the first reader of the first pair
@file src/transformers/reader_t.rs
<<<<
        let combine_fn_clone = combine_fn.clone();
        Box::new(
            move |reader1: &ReaderT<E, M, A>, reader2: &ReaderT<E, M, B>| {
                let run1 = Arc::clone(&reader1.run_reader_fn);
====
        let combine_fn_clone = combine_fn.clone();
        let left = std::sync::OnceLock::new();
        Box::new(
            move |reader1: &ReaderT<E, M, A>, reader2: &ReaderT<E, M, B>| {
                let run1 = Arc::clone(left.get_or_init(|| Arc::clone(&reader1.run_reader_fn)));
>>>>
@demo
use rustica::transformers::ReaderT;
fn main() {
    type R = ReaderT<i64, Option<i64>, i64>;
    let a: R = ReaderT::new(|e: i64| Some(e + 1));
    let b: R = ReaderT::new(|e: i64| Some(e * 10));
    let add = a.lift2::<i64, i64, _, _>(|x: i64, y: i64| x * 1000 + y, |x: Option<i64>, y: Option<i64>, f| x.and_then(|x| y.map(|y| f(x, y))));
    let ab = add(&a, &b);
    let ba = add(&b, &a);
    assert_eq!(ab.run_reader(2), Some(3020));
    assert_eq!(ba.run_reader(2), Some(20003));
    assert_eq!(ab.run_reader(2), Some(3020));
}
