@id c27-fmap-owned-ptr-read
@prop C27
@needs mapping a choice of heap-owning values by value with a function that panics after the first call
@breaks the values not yet handed to the function are never dropped when the function panics
@file src/datatypes/choice.rs
<<<<
        let mut values = self.values;
        let mut f = f;
        let primary = f(values.remove(0));
        let alternatives: SmallVec<[B; 8]> = values.into_iter().map(f).collect();
        Choice::new(primary, alternatives)
====
        let mut values = self.values;
        let mut f = f;
        // move the values out one by one instead of shifting them to the front
        let len = values.len();
        unsafe { values.set_len(0) };
        let base = values.as_ptr();
        let primary = f(unsafe { std::ptr::read(base) });
        let alternatives: SmallVec<[B; 8]> = (1..len)
            .map(|i| f(unsafe { std::ptr::read(base.add(i)) }))
            .collect();
        Choice::new(primary, alternatives)
>>>>
@demo
use rustica::datatypes::choice::Choice;
use rustica::traits::functor::Functor;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct D(#[allow(dead_code)] String);
impl D { fn new(i: usize) -> D { LIVE.fetch_add(1, SeqCst); D(format!("value {i}")) } }
impl Clone for D { fn clone(&self) -> D { LIVE.fetch_add(1, SeqCst); D(self.0.clone()) } }
impl Drop for D { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for n in [1usize, 3, 8, 9, 30] {
        for stop in 0..=n {
            let c = Choice::of_many((0..n).map(D::new));
            let count = std::cell::Cell::new(0);
            let r = catch_unwind(AssertUnwindSafe(|| {
                c.fmap_owned(|d: D| {
                    count.set(count.get() + 1);
                    if count.get() > stop { panic!("user function") }
                    d
                })
            }));
            drop(r);
            if LIVE.load(SeqCst) != 0 {
                println!("n {n} stop {stop}: {} values alive", LIVE.load(SeqCst));
                std::process::exit(1);
            }
        }
    }
}
