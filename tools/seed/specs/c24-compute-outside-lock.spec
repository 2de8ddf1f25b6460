@id c24-compute-outside-lock
@prop C24
@needs two threads asking for the same missing key while the computation is still in progress
@breaks the function runs once per waiting thread instead of once
@file src/datatypes/wrapper/memoizer.rs
<<<<
        // Not found, compute and insert
====
        // Not found: compute (without holding the lock while user code runs) and insert
        let value = f(&key);
>>>>
@file src/datatypes/wrapper/memoizer.rs
<<<<
        let value = f(&key);
        cache.insert(key.clone(), value.clone());
====
        cache.insert(key.clone(), value.clone());
>>>>
@demo
use rustica::datatypes::wrapper::memoizer::Memoizer;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Barrier;
fn main() {
    for round in 0..20u64 {
        let m: Memoizer<u64, u64> = Memoizer::new();
        let calls = AtomicUsize::new(0);
        let b = Barrier::new(4);
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| {
                    b.wait();
                    let v = m.get_or_compute(round, |k| { calls.fetch_add(1, SeqCst); std::thread::sleep(std::time::Duration::from_millis(20)); k * 2 });
                    assert_eq!(v, round * 2);
                });
            }
        });
        assert_eq!(calls.load(SeqCst), 1, "round {round}");
    }
}
