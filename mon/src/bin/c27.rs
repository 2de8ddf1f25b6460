//! Memory-safety monitor. Roles:
//!   (none)  drop-count, poison and allocation-balance monitor over the program set, with injected panics
//!   ub      the same programs as a bare driver for an outer sanitizer (ASan, TSan, Miri); judges only drop counts
use mon::progs::PROGS;
use mon::track::{self, PANIC_AT, TICKS};
use mon::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
struct Bal;
static BALANCE: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Bal {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BALANCE.fetch_add(l.size() as i64, Ordering::Relaxed);
        BLOCKS.fetch_add(1, Ordering::Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BALANCE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        BLOCKS.fetch_sub(1, Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BALANCE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: Bal = Bal;
fn once(prog: fn(&mut Rng), seed: u64, at: u64) -> (u64, Result<(), Panic>) {
    TICKS.with(|t| t.set(0));
    PANIC_AT.with(|p| p.set(at));
    let r = quiet(|| prog(&mut Rng::new(seed)));
    PANIC_AT.with(|p| p.set(0));
    (TICKS.with(|t| t.get()), r)
}
/// background threads of the library may still be dropping their values
fn settled(base: i64) -> i64 {
    let mut n = 0;
    while track::live() != base && n < 400 {
        std::thread::sleep(std::time::Duration::from_millis(5));
        n += 1;
    }
    track::live() - base
}
fn judge(cx: &mut Ctx, name: &str, seed: u64, at: u64, base: i64) -> bool {
    let d = settled(base);
    cx.check(&format!("{name}.values"), d == 0, || format!("{d} values alive after the program ended (negative: dropped twice); program {name}, seed {seed}, panic point {at}"));
    let bad = track::bad();
    cx.check(&format!("{name}.use_after_drop"), bad == 0, || format!("{bad} uses of dropped values; program {name}, seed {seed}, panic point {at}"));
    d == 0
}
/// bytes that stay allocated after each further repetition of the same program
fn growth(prog: fn(&mut Rng), seed: u64, at: u64, reps: usize) -> (i64, i64) {
    let mut least = i64::MAX;
    let mut least_blocks = i64::MAX;
    drop(once(prog, seed, at));
    for _ in 0..reps {
        let (b, k) = (BALANCE.load(Ordering::SeqCst), BLOCKS.load(Ordering::SeqCst));
        drop(once(prog, seed, at));
        least = least.min(BALANCE.load(Ordering::SeqCst) - b);
        least_blocks = least_blocks.min(BLOCKS.load(Ordering::SeqCst) - k);
    }
    (least, least_blocks)
}
fn one(cx: &mut Ctx, name: &'static str, prog: fn(&mut Rng), seed: u64, faults: usize, balance: bool) {
    let base = track::live();
    cx.watch_begin(name);
    let (ticks, r) = once(prog, seed, 0);
    if let Err(p) = &r {
        cx.count("programs_ended_by_library_panic", 1);
        cx.count(&format!("panic.{name}"), 1);
        if p.loc.contains("/verif/mon/") || p.loc.starts_with("src/") {
            cx.harness_error(format!("{name} seed {seed}: {} at {}", p.msg, p.loc));
        }
    }
    cx.case(name, &(seed, ticks), ticks > 0, || format!("seed {seed}: {ticks} points of user code, {} values so far, ended {}", track::MADE.load(Ordering::Relaxed), if r.is_ok() { "normally" } else { "by a panic" }));
    cx.count("user_code_points", ticks);
    let mut fine = judge(cx, name, seed, 0, base);
    let mut ks: Vec<u64> = vec![];
    if ticks > 0 {
        for _ in 0..faults {
            let k = 1 + cx.rng.below(ticks as usize) as u64;
            if !ks.contains(&k) {
                ks.push(k);
            }
        }
        if faults > 0 && !ks.contains(&ticks) {
            ks.push(ticks);
        }
    }
    for &k in &ks {
        let (_, r) = once(prog, seed, k);
        if matches!(&r, Err(p) if p.injected.is_some()) {
            cx.count("panics_injected", 1);
        }
        fine &= judge(cx, name, seed, k, base);
    }
    if balance && fine {
        for at in std::iter::once(0).chain(ks.into_iter().take(2)) {
            let mut g = growth(prog, seed, at, 3);
            if g.0 > 0 {
                g = growth(prog, seed, at, 12);
            }
            cx.count("balances", 1);
            cx.check(&format!("{name}.balance"), g.0 <= 0, || format!("every repetition leaves at least {} bytes in {} blocks allocated; program {name}, seed {seed}, panic point {at}", g.0, g.1));
        }
    }
    cx.watch_end();
}
// -------------------------------------------------------------- thread-safety markers
macro_rules! is {
    ($tr:ident, $t:ty) => {{
        struct P<T: ?Sized>(std::marker::PhantomData<T>);
        trait No {
            const YES: bool = false;
        }
        impl<T: ?Sized> No for P<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $tr> P<T> {
            const YES: bool = true;
        }
        <P<$t>>::YES
    }};
}
fn markers(cx: &mut Ctx) {
    use rustica::datatypes::{choice::Choice, either::Either, id::Id, maybe::Maybe, validated::Validated, writer::Writer};
    use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, memoizer::Memoizer, min::Min, thunk::Thunk};
    use rustica::pvec::PersistentVector as PV;
    use std::cell::Cell;
    use std::rc::Rc;
    type N = Rc<i32>;
    type C = Cell<i32>;
    macro_rules! never {
        ($($t:ident<$($p:tt),*>),* $(,)?) => {$(
            never!(@ $t, Send, [$($p),*], N);
            never!(@ $t, Sync, [$($p),*], N);
            never!(@ $t, Sync, [$($p),*], C);
        )*};
        (@ $t:ident, $m:ident, [$($p:tt),*], $x:ty) => {{
            let yes = is!($m, $t<$(never!(% $p, $x)),*>);
            let name = format!("{}<{}>: {}", stringify!($t), stringify!($x), stringify!($m));
            cx.case("marker", &name, true, || name.clone());
            cx.check(concat!("marker.", stringify!($t), ".", stringify!($m)), !yes, || format!("{name} holds, so safe code can share a non-thread-safe value between threads"));
        }};
        (% _, $x:ty) => { $x };
        (% $p:tt, $x:ty) => { $p };
    }
    never!(PV<_>, Choice<_>, Maybe<_>, Either<_, i32>, Either<i32, _>, Validated<_, i32>, Validated<i32, _>, Id<_>, Writer<String, _>, First<_>, Last<_>, Min<_>, Max<_>);
    // shared with a single-threaded interior a persistent structure must not even be sent
    let shared = [("PV<Cell>: Send", is!(Send, PV<C>))];
    for (n, yes) in shared {
        cx.case("marker", &n, true, || n.to_string());
        cx.check("marker.shared", !yes, || format!("{n} holds"));
    }
    let m = [
        ("Memoizer<i32, Rc>: Send", is!(Send, Memoizer<i32, N>)),
        ("Memoizer<i32, Rc>: Sync", is!(Sync, Memoizer<i32, N>)),
        ("Memoizer<Rc, i32>: Send", is!(Send, Memoizer<N, i32>)),
        ("Memoizer<Rc, i32>: Sync", is!(Sync, Memoizer<N, i32>)),
        ("Thunk<fn, Rc> with a Cell reference: Send", is!(Send, Thunk<Box<dyn Fn() -> i32>, i32>)),
        ("Thunk<fn, Rc> with a Cell reference: Sync", is!(Sync, Thunk<Box<dyn Fn() -> i32>, i32>)),
    ];
    for (n, yes) in m {
        cx.case("marker", &n, true, || n.to_string());
        cx.check("marker.owner", !yes, || format!("{n} holds"));
    }
    // positive control: the probe can tell the difference
    if !is!(Send, PV<i32>) || is!(Send, Rc<i32>) {
        cx.harness_error("marker probe is blind");
    }
}
fn ub(seeds: u64, first: u64, only: Option<String>, faults: usize) -> i32 {
    let mut n = 0u64;
    let mut points = 0;
    for i in 0..seeds {
        for (name, prog) in PROGS {
            if only.as_deref().is_some_and(|o| !o.split(',').any(|x| x == *name)) {
                continue;
            }
            let seed = first.wrapping_mul(1_000_003).wrapping_add(i);
            let base = track::live();
            let (ticks, _) = once(*prog, seed, 0);
            points += ticks;
            for f in 0..faults {
                if ticks > 0 {
                    drop(once(*prog, seed, 1 + hash_of(&(seed, f)) % ticks));
                    n += 1;
                }
            }
            n += 1;
            let d = settled(base);
            if d != 0 || track::bad() != 0 {
                println!("UBDRIVER {name} seed {seed}: {d} values alive, {} bad uses", track::bad());
                return 98;
            }
        }
    }
    println!("UBDRIVER done programs={n} user_code_points={points} values={}", track::MADE.load(Ordering::Relaxed));
    0
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "ub") {
        std::panic::set_hook(Box::new(|_| {}));
        let num = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
        let only = a.get(4).filter(|s| *s != "-").cloned();
        std::process::exit(ub(num(2, 1), num(3, 1), only, num(5, 1) as usize));
    }
    main_with("C27", |cx| {
        cx.rule = "a case is one generated program over the public API with drop-counted heap-owning values, run to its end, re-run with a panic injected at chosen points of user code, \
                   and repeated to measure the allocation balance; non-trivial: user code ran; distinct by program and seed. marker: one thread-safety marker probe."
            .into();
        let n = cx.n(4000, 200_000);
        markers(cx);
        for i in 0..n {
            if !cx.within(if cx.thorough { 0.5 } else { 0.8 }) {
                break;
            }
            for (name, prog) in PROGS {
                let seed = cx.rng.u64();
                let slow = matches!(*name, "threads" | "pvec" | "async" | "io");
                if slow && i % 4 != 0 {
                    continue;
                }
                one(cx, name, *prog, seed, if slow { 3 } else { 5 }, i % 3 == 0 || slow);
            }
        }
        cx.require("panics_injected", 30_000);
        cx.require("balances", 20_000);
        cx.require("user_code_points", 100_000);
    });
}
