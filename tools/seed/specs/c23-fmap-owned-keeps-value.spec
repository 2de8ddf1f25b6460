@id c23-fmap-owned-keeps-value
@prop C23
@needs running a description made by fmap_owned more than once, over an effect whose value or side effects differ between runs
@breaks the value of the mapped effect is kept after the first run, so running the description again does not run the effect again
@file src/datatypes/async_monad.rs
<<<<
        AsyncM {
            inner: AsyncMInner::Effect(Arc::new(move || {
                let f = f.clone();
                let inner = self.inner.clone();

                async move {
                    let a = match &inner {
                        AsyncMInner::Pure(value) => (**value).clone(),
                        AsyncMInner::Effect(run) => run().await,
                    };
                    f(a).await
                }
                .boxed()
            })),
            _phantom: PhantomData,
        }
    }

    /// Chains this computation with another async computation, consuming the original.
====
        // the source is owned here, so its value can be kept for further runs
        let source = Arc::new(std::sync::OnceLock::new());
        AsyncM {
            inner: AsyncMInner::Effect(Arc::new(move || {
                let f = f.clone();
                let inner = self.inner.clone();
                let source = Arc::clone(&source);

                async move {
                    let a = match &inner {
                        AsyncMInner::Pure(value) => (**value).clone(),
                        AsyncMInner::Effect(run) => match source.get() {
                            Some(value) => A::clone(value),
                            None => {
                                let value = run().await;
                                let _ = source.set(value.clone());
                                value
                            },
                        },
                    };
                    f(a).await
                }
                .boxed()
            })),
            _phantom: PhantomData,
        }
    }

    /// Chains this computation with another async computation, consuming the original.
>>>>
@dep futures = "0.3"
@demo
use rustica::datatypes::async_monad::AsyncM;
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::Arc;
fn main() {
    let n = Arc::new(AtomicI32::new(0));
    let n2 = n.clone();
    let m = AsyncM::new(move || {
        let n = n2.clone();
        async move { n.fetch_add(1, Ordering::SeqCst) }
    })
    .fmap_owned(|x| async move { x * 10 });
    assert_eq!(futures::executor::block_on(m.try_get()), 0);
    assert_eq!(futures::executor::block_on(m.try_get()), 10);
    assert_eq!(n.load(Ordering::SeqCst), 2);
}
