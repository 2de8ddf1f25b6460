@id c23-zip-same-description
@prop C23
@needs zipping a description with a clone of itself
@breaks the shared effect is run once and its value used for both sides
@file src/datatypes/async_monad.rs
<<<<
    pub fn zip<B>(self, other: AsyncM<B>) -> AsyncM<(A, B)>
    where
        B: Send + Sync + Clone + 'static,
        A: Clone,
    {
        self.zip_with(other, |a, b| (a, b))
    }
====
    pub fn zip<B>(self, other: AsyncM<B>) -> AsyncM<(A, B)>
    where
        B: Send + Sync + Clone + 'static,
        A: Clone,
    {
        if let (AsyncMInner::Effect(a), Some(AsyncMInner::Effect(b))) =
            (&self.inner, (&other.inner as &dyn std::any::Any).downcast_ref::<AsyncMInner<A>>())
            && Arc::ptr_eq(a, b)
        {
            // one description on both sides
            return AsyncM {
                inner: AsyncMInner::Effect(Arc::new(move || {
                    let inner = self.inner.clone();
                    async move {
                        let a = match &inner {
                            AsyncMInner::Pure(value) => (**value).clone(),
                            AsyncMInner::Effect(run) => run().await,
                        };
                        let b = (&a as &dyn std::any::Any).downcast_ref::<B>().cloned();
                        (a, b.expect("both sides have the same type"))
                    }
                    .boxed()
                })),
                _phantom: PhantomData,
            };
        }
        self.zip_with(other, |a, b| (a, b))
    }
>>>>
@dep futures = "0.3"
@demo
use rustica::datatypes::async_monad::AsyncM;
use std::sync::Arc;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
fn main() {
    let n = Arc::new(AtomicI32::new(0));
    let n2 = n.clone();
    let next = AsyncM::new(move || {
        let n = n2.clone();
        async move { n.fetch_add(1, SeqCst) }
    });
    let (a, b) = futures::executor::block_on(next.clone().zip(next).try_get());
    assert_eq!(n.load(SeqCst), 2);
    assert_ne!(a, b);
}
