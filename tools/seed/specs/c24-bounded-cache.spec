@id c24-bounded-cache
@prop C24
@needs more than 4096 different keys in one memoizer, and an early key asked for again
@breaks the cache silently drops keys once it holds 4096, so a key is computed again without a clear
@file src/datatypes/wrapper/memoizer.rs
<<<<
        let value = f(&key);
====
        // keep the memory bounded
        if cache.len() >= 4096 {
            let old = cache.keys().next().cloned();
            if let Some(old) = old {
                cache.remove(&old);
            }
        }
        let value = f(&key);
>>>>
@demo
use rustica::datatypes::wrapper::memoizer::Memoizer;
use std::sync::atomic::{AtomicUsize, Ordering};
fn main() {
    let m = Memoizer::new();
    let calls = AtomicUsize::new(0);
    for _ in 0..2 {
        for k in 0..20_000u32 {
            let v = m.get_or_compute(k, |k| {
                calls.fetch_add(1, Ordering::SeqCst);
                k * 2
            });
            assert_eq!(v, k * 2);
        }
    }
    assert_eq!(calls.load(Ordering::SeqCst), 20_000);
}
