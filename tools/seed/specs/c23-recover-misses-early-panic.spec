@id c23-recover-misses-early-panic
@prop C23
@needs a computation that panics while its future is being created (before the first await), not while it is being awaited
@breaks recover_with only guards the future itself, so a panic raised by the function that makes the future escapes to the caller
@file src/datatypes/async_monad.rs
<<<<
                    let result = panic::AssertUnwindSafe(async {
                        match &inner {
                            AsyncMInner::Pure(value) => (**value).clone(),
                            AsyncMInner::Effect(run) => run().await,
                        }
                    })
                    .catch_unwind()
                    .await;
====
                    let future = match &inner {
                        AsyncMInner::Pure(value) => return (**value).clone(),
                        AsyncMInner::Effect(run) => run(),
                    };
                    let result = panic::AssertUnwindSafe(future).catch_unwind().await;
>>>>
@dep futures = "0.3"
@demo
use rustica::datatypes::async_monad::AsyncM;
fn boom() -> i32 {
    panic!("early")
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let late: AsyncM<i32> = AsyncM::new(|| async { boom() });
    assert_eq!(futures::executor::block_on(late.recover_with(7).try_get()), 7);
    let early: AsyncM<i32> = AsyncM::new(|| {
        let v = boom();
        async move { v }
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| futures::executor::block_on(early.recover_with(7).try_get())));
    assert_eq!(r.ok(), Some(7));
}
