@id c20-call-cc-first-continuation
@prop C20
@needs running the same call_cc description twice with different continuations and escaping in the second run
@breaks the escape function is built once and kept, so escaping in a later run resumes the continuation of the first run
@file src/transformers/cont_t.rs
<<<<
        let f = Arc::new(f);
        ContT::new(move |k| {
            let k_clone = k.clone();
            let escape = Arc::new(move |a: A| {
                let k_inner = k_clone.clone();
                ContT::new(move |_ignored| k_inner(a.clone()))
            });
            f.clone()(escape).run_cont.clone()(k)
        })
    }
}
====
        let f = Arc::new(f);
        // the escape target is the same for the whole block: remember it
        let target = std::sync::OnceLock::new();
        ContT::new(move |k| {
            let k_clone: Arc<dyn Fn(A) -> M + Send + Sync> = target.get_or_init(|| k.clone()).clone();
            let escape = Arc::new(move |a: A| {
                let k_inner = k_clone.clone();
                ContT::new(move |_ignored| k_inner(a.clone()))
            });
            f.clone()(escape).run_cont.clone()(k)
        })
    }
}
>>>>
@demo
use rustica::transformers::ContT;
fn main() {
    let c: ContT<i32, Option<i32>, i32> = ContT::call_cc(|esc: std::sync::Arc<dyn Fn(i32) -> ContT<i32, Option<i32>, i32> + Send + Sync>| esc(5).bind(|x| ContT::pure(x + 100)));
    assert_eq!(c.run(|x| Some(x * 2)), Some(10));
    assert_eq!(c.run(|x| Some(x * 3)), Some(15));
}
