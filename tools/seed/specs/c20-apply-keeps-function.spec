@id c20-apply-keeps-function
@prop C20
@needs a continuation computation built by apply whose function part yields different functions (several times in one run, or in later runs)
@breaks the first function delivered is used for every later delivery
@file src/transformers/cont_t.rs
<<<<
            let k = Arc::new(k);
            run_func(Arc::new(move |f| {
====
            let k = Arc::new(k);
            let first = std::sync::OnceLock::new();
            run_func(Arc::new(move |f| {
                // the function part is evaluated once, whatever its continuation is used for
                let f = first.get_or_init(|| f).clone();
>>>>
@demo
use rustica::datatypes::id::Id;
use rustica::transformers::ContT;
use rustica::traits::identity::Identity;
use std::sync::Arc;
type F = Arc<dyn Fn(i32) -> i32 + Send + Sync>;
fn main() {
    let v: ContT<i32, Id<i32>, i32> = ContT::pure(5);
    let fs: ContT<i32, Id<i32>, F> = ContT::new(|k: Arc<dyn Fn(F) -> Id<i32> + Send + Sync>| {
        let a = *k(Arc::new(|x| x + 1)).value();
        let b = *k(Arc::new(|x| x * 10)).value();
        Id::new(a * 1000 + b)
    });
    assert_eq!(*v.apply(fs).run(Id::new).value(), 6050);
}
