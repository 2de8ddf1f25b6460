//! Instrumented element type: counts live instances, clones and drops; can panic on a chosen clone.
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static CLONES: AtomicU64 = AtomicU64::new(0);
pub static DROPS: AtomicU64 = AtomicU64::new(0);
pub static MADE: AtomicU64 = AtomicU64::new(0);
pub static BAD: AtomicU64 = AtomicU64::new(0);
thread_local! {
    /// panic when this many clones (on this thread) have happened; 0 = disabled
    pub static TICKS: Cell<u64> = const { Cell::new(0) };
    pub static PANIC_AT: Cell<u64> = const { Cell::new(0) };
}
const ALIVE: u32 = 0xA11F_E001;
const DEAD: u32 = 0xDEAD_0BAD;
#[derive(Debug)]
pub struct Tr {
    pub v: i64,
    magic: u32,
    heap: Box<i64>,
}
impl Tr {
    pub fn new(v: i64) -> Tr {
        MADE.fetch_add(1, Ordering::Relaxed);
        LIVE.fetch_add(1, Ordering::Relaxed);
        Tr { v, magic: ALIVE, heap: Box::new(v) }
    }
    pub fn ok(&self) -> bool {
        self.magic == ALIVE && *self.heap == self.v
    }
}
/// a point at which user code runs inside a library call; panics when the countdown says so
pub fn tick() {
    TICKS.with(|t| t.set(t.get() + 1));
    PANIC_AT.with(|p| {
        let n = p.get();
        if n > 0 {
            p.set(n - 1);
            if n == 1 {
                crate::inject(77);
            }
        }
    });
}
/// reads a value handed to user code, noting whether it is still alive
pub fn see(t: &Tr) -> i64 {
    if !t.ok() {
        BAD.fetch_add(1, Ordering::Relaxed);
    }
    tick();
    t.v
}
impl Default for Tr {
    fn default() -> Tr {
        Tr::new(0)
    }
}
impl std::fmt::Display for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tr{}", self.v)
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        if self.magic != ALIVE {
            BAD.fetch_add(1, Ordering::Relaxed);
        }
        tick();
        CLONES.fetch_add(1, Ordering::Relaxed);
        LIVE.fetch_add(1, Ordering::Relaxed);
        Tr { v: self.v, magic: ALIVE, heap: Box::new(self.v) }
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        if self.magic != ALIVE {
            BAD.fetch_add(1, Ordering::Relaxed);
        }
        self.magic = DEAD;
        DROPS.fetch_add(1, Ordering::Relaxed);
        LIVE.fetch_sub(1, Ordering::Relaxed);
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        self.v == o.v
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}
impl std::hash::Hash for Tr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}
pub fn live() -> i64 {
    LIVE.load(Ordering::SeqCst)
}
pub fn clones() -> u64 {
    CLONES.load(Ordering::SeqCst)
}
pub fn bad() -> u64 {
    BAD.load(Ordering::SeqCst)
}
