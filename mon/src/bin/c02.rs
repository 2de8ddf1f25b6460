use mon::pv::*;
use mon::track::{self, Tr};
use mon::*;
use rustica::pvec::PersistentVector as PV;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
fn main() {
    main_with("C02", |cx| {
        cx.rule = "a case is one history whose every produced version is retained and re-read later (after each step a sample, at the end all); \
                   or a concurrent round: 7 threads derive from shared versions while another re-reads them; or a history in which user clones/closures panic. \
                   Non-trivial: at least 5 retained versions; distinct by history."
            .into();
        let n = cx.n(700, 60_000);
        cx.par(8, |cx, i| {
            for k in 0..n {
                if !cx.within(0.35) {
                    break;
                }
                let mut r = cx.rng.split();
                if (i + k) % 3 == 0 { retain::<String>(cx, &mut r) } else { retain::<i64>(cx, &mut r) }
            }
        });
        for _ in 0..cx.n(400, 30_000) {
            if !cx.within(0.65) {
                break;
            }
            let mut r = cx.rng.split();
            panics(cx, &mut r);
        }
        for _ in 0..cx.n(60, 4000) {
            if !cx.go() {
                break;
            }
            concurrent(cx);
        }
        cx.require("versions_retained", 20_000);
        cx.require("panics_injected", 300);
        cx.require("concurrent_rereads", 1000);
    });
}
struct Kept<T> {
    p: PV<T>,
    m: Vec<i64>,
    at: usize,
}
fn reread<T: Elem>(cx: &mut Ctx, k: &Kept<T>, hist: &dyn Fn() -> String, sig: &str) {
    let res = cx.guard(sig, hist, || same(&k.p, &k.m));
    cx.count("rereads", 1);
    if let Some(Err(e)) = res {
        cx.violation(sig.to_string(), format!("version made at step {} changed: {e}; {}", k.at, hist()));
    }
}
/// Snapshot what the version contains now (not what a model says): C02 is about change.
fn snap<T: Elem>(p: &PV<T>) -> Vec<i64> {
    p.iter().map(|x| x.val()).collect()
}
fn retain<T: Elem>(cx: &mut Ctx, r: &mut Rng) {
    let mut p = Pool::<T>::new();
    p.max_len = if r.chance(1, 3) { 2500 } else { 260 };
    let mut kept: Vec<Kept<T>> = vec![];
    let steps = 15 + r.below(45);
    for s in 0..steps {
        let before: Vec<u64> = vec![];
        let _ = before;
        p.step(cx, r, 10);
        for it in &p.items {
            if kept.len() < 120 && r.chance(1, 4) {
                if let Some(m) = cx.guard("snapshot", || p.hist(), || snap(&it.p)) {
                    kept.push(Kept { p: it.p.clone(), m, at: s });
                    cx.count("versions_retained", 1);
                }
            }
        }
        if !kept.is_empty() {
            for _ in 0..2 {
                let i = r.below(kept.len());
                let h = || p.hist();
                reread(cx, &kept[i], &h, "retained");
            }
        }
    }
    // the pool's own versions are re-read through the oracle model, the retained ones through their snapshots
    for it in &p.items {
        p.judge(cx, "pool", &it.p, &it.m);
    }
    let h = || p.hist();
    for k in &kept {
        reread(cx, k, &h, "retained");
    }
    let d = p.log.join("; ");
    cx.case("retain", &d, kept.len() >= 5, || d.clone());
}
fn panics(cx: &mut Ctx, r: &mut Rng) {
    let mut p = Pool::<Tr>::new();
    p.max_len = 300;
    for _ in 0..8 {
        p.step(cx, r, 6);
    }
    let mut log = vec![];
    for _ in 0..25 {
        if p.items.len() < 2 {
            break;
        }
        let a = r.below(p.items.len());
        let b = r.below(p.items.len());
        let (pa, pb) = (&p.items[a].p, &p.items[b].p);
        let len = pa.len().max(1);
        let i = r.below(len);
        let op = r.below(16);
        let k = 1 + r.u64() % (len as u64 + 4);
        log.push(format!("op{op}(#{a},#{b},{i}) panic@{k}"));
        let calls = std::cell::Cell::new(0u64);
        let boom = || {
            calls.set(calls.get() + 1);
            if calls.get() == k {
                inject(5)
            }
        };
        let clone_fault = op < 10;
        if clone_fault {
            track::PANIC_AT.with(|c| c.set(k));
        }
        let res = quiet(|| match op {
            0 => drop(pa.push_back(Tr::new(-1))),
            1 => drop(pa.push_front(Tr::new(-1))),
            2 => drop(pa.pop_back()),
            3 => drop(pa.pop_front()),
            4 => drop(pa.update(i, Tr::new(-1))),
            5 => drop(pa.insert(i, Tr::new(-1))),
            6 => drop(pa.remove(i)),
            7 => drop(pa.split_at(i)),
            8 => drop(pa.concat(pb)),
            9 => drop(pa.sorted()),
            10 => drop(pa.map(|x| {
                boom();
                x.clone()
            })),
            11 => drop(pa.filter(|x| {
                boom();
                x.v > 0
            })),
            12 => {
                pa.fold(0, |s, x| {
                    boom();
                    s ^ x.v
                });
            },
            13 => drop(pa.flat_map(|x| {
                boom();
                vec![x.clone()]
            })),
            14 => {
                let mut e = pa.clone();
                e.extend(pb.iter().map(|x| {
                    boom();
                    x.clone()
                }));
            },
            _ => drop(pa.partition(|x| {
                boom();
                x.v % 2 == 0
            })),
        });
        track::PANIC_AT.with(|c| c.set(0));
        match res {
            Ok(()) => {},
            Err(e) if e.injected.is_some() => cx.count("panics_injected", 1),
            Err(e) => cx.violation("fault.other_panic", format!("{e:?} in {log:?}; {}", p.hist())),
        }
        for it in &p.items {
            let res = cx.guard("fault.reread", || p.hist(), || same(&it.p, &it.m));
            if let Some(Err(e)) = res {
                cx.violation("fault.reread", format!("{e} after {log:?}; {}", p.hist()));
            }
            cx.count("rereads", 1);
        }
    }
    let d = format!("{}; {}", p.log.join("; "), log.join("; "));
    cx.case("panics", &d, p.items.len() >= 2, || log.join("; "));
}
fn concurrent(cx: &mut Ctx) {
    let mut r = cx.rng.split();
    let mut p = Pool::<i64>::new();
    p.max_len = 2500;
    for _ in 0..12 {
        p.step(cx, &mut r, 8);
    }
    let shared: Arc<Vec<(PV<i64>, Vec<i64>)>> =
        Arc::new(p.items.iter().filter_map(|x| quiet(|| (x.p.clone(), snap(&x.p))).ok()).collect());
    let stop = AtomicBool::new(false);
    let rereads = AtomicU64::new(0);
    let bad = std::sync::Mutex::new(vec![]);
    let derived = AtomicU64::new(0);
    let hist = p.hist();
    std::thread::scope(|s| {
        let sh = &shared;
        let (stop, rereads, bad) = (&stop, &rereads, &bad);
        let v = s.spawn(move || {
            while !stop.load(Ordering::Relaxed) {
                for (i, (p, m)) in sh.iter().enumerate() {
                    if let Ok(Err(e)) | Err(e) = quiet(|| same(p, m)).map_err(|e| format!("{e:?}")) {
                        bad.lock().unwrap_or_else(|e| e.into_inner()).push(format!("shared #{i}: {e}"));
                        return;
                    }
                    rereads.fetch_add(1, Ordering::Relaxed);
                }
            }
        });
        cx.par(7, |cx, _| {
            let mut r = cx.rng.split();
            let mut q = Pool::<i64>::new();
            q.max_len = 2500;
            for (p, m) in shared.iter() {
                q.items.push(Item { p: p.clone(), m: m.clone() });
            }
            for _ in 0..40 {
                q.step(cx, &mut r, 12);
                derived.fetch_add(1, Ordering::Relaxed);
                if r.chance(1, 3) {
                    let (p, m) = r.pick(&shared);
                    let res = cx.guard("concurrent.reread", || q.hist(), || same(p, m));
                    if let Some(Err(e)) = res {
                        cx.violation("concurrent.reread", format!("{e}; base {hist}; thread {}", q.hist()));
                    }
                    rereads.fetch_add(1, Ordering::Relaxed);
                }
                if r.chance(1, 8) {
                    std::thread::yield_now();
                }
            }
        });
        stop.store(true, Ordering::Relaxed);
        let _ = v.join();
    });
    for b in bad.into_inner().unwrap_or_default() {
        cx.violation("concurrent.reread", format!("{b}; {hist}"));
    }
    cx.count("concurrent_rereads", rereads.load(Ordering::Relaxed));
    cx.count("concurrent_derivations", derived.load(Ordering::Relaxed));
    cx.case("concurrent", &hist, shared.len() >= 2, || hist.chars().take(200).collect());
}
