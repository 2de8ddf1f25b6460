use mon::*;
use rustica::datatypes::wrapper::memoizer::Memoizer;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

/// a key whose hash collides on purpose
#[derive(Clone, Debug)]
struct Key {
    id: i64,
    buckets: u64,
    /// not part of the key's identity: shows which caller's key the function was given
    caller: i64,
}
impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.id as u64 % self.buckets).hash(h)
    }
}
#[derive(Clone, Debug, PartialEq)]
enum E {
    /// thread, key, start, end, value or failure
    Get { key: i64, start: i64, end: i64, value: Option<i64> },
    /// a computation that ran, with the unique value it produced (None: it failed)
    Compute { key: i64, start: i64, end: i64, value: Option<i64> },
    Clear { start: i64, end: i64 },
}

fn main() {
    main_with("C24", |cx| {
        cx.rule = "a case is a history: several threads look up a few keys (some colliding), compute with delays or panics, and clear; every computation returns a value no other computation returns, and the \
                   recorded start/end times of lookups, computations and clears are checked offline: each value comes from a computation of that key, at most one successful computation per key between clears, \
                   nothing from before a finished clear, failures not cached. Single-threaded histories are compared with a map exactly. Distinct by (workload, observed order of events)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(60_000, 3_000_000);
        many(cx, 70_000, 2);
        cx.par(8, |cx, _| {
            let mut inter = HashSet::new();
            for i in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                sequential(cx, &mut r);
                if i % 4 == 0 {
                    concurrent(cx, &mut r, &mut inter);
                }
                if i % 200 == 0 {
                    let n = 1 << (4 + r.below(9));
                    let threads = 1 + r.below(3);
                    many(cx, n + r.below(n), threads);
                }
            }
            cx.count("distinct_interleavings", inter.len() as u64);
        });
        cx.require("overlapping_lookups", 1000);
        cx.require("contended_misses", 300);
        cx.require("failed_computations", 300);
        cx.require("clears_between", 300);
        cx.require("distinct_interleavings", 500);
        cx.require("keys", 65_537);
    });
}
fn sequential(cx: &mut Ctx, r: &mut Rng) {
    let buckets = *r.pick(&[1, 2, 1000]);
    let keys = 1 + r.below(8) as i64;
    let ops: Vec<(u8, i64, bool)> = (0..r.below(60)).map(|_| (r.below(12) as u8, r.range(0, keys), r.chance(1, 6))).collect();
    let c = || format!("buckets {buckets} ops (kind, key, fails): {ops:?}");
    cx.case("sequential", &(buckets, &ops), ops.len() > 3, c);
    let memo: Memoizer<Key, String> = if r.chance(1, 2) { Memoizer::new() } else { Memoizer::default() };
    let mut model: HashMap<i64, String> = HashMap::new();
    for (n, (kind, id, fails)) in ops.iter().enumerate() {
        if *kind == 0 {
            memo.clear();
            model.clear();
            continue;
        }
        let calls = Log::new();
        let cl = calls.clone();
        let key = Key { id: *id, buckets, caller: n as i64 };
        let fresh = format!("{id}#{n}");
        let got = quiet(|| {
            memo.get_or_compute(key, |k| {
                cl.add((k.id, k.caller));
                if *fails {
                    inject(n as i64)
                }
                format!("{}#{n}", k.id)
            })
        });
        let cached = model.get(id).cloned();
        let (want_calls, want) = match (&cached, fails) {
            (Some(v), _) => (vec![], Some(v.clone())),
            (None, false) => (vec![(*id, n as i64)], Some(fresh.clone())),
            (None, true) => (vec![(*id, n as i64)], None),
        };
        if cached.is_none() && *fails {
            cx.count("failed_computations", 1);
        }
        if let Some(v) = &want {
            model.insert(*id, v.clone());
        }
        let cc = || format!("operation {n} of {}", c());
        cx.eq("memo.calls", &calls.take(), &want_calls, cc);
        match got {
            Ok(v) => cx.eq("memo.value", &Some(v), &want, cc),
            Err(p) => cx.check("memo.value", want.is_none() && p.injected == Some(n as i64), || format!("failed: {} at {}; {}", p.msg, p.loc, cc())),
        }
    }
}
fn concurrent(cx: &mut Ctx, r: &mut Rng, inter: &mut HashSet<u64>) {
    let threads = 2 + r.below(5);
    let buckets = *r.pick(&[1, 1000]);
    let keys = 1 + r.below(3) as i64;
    let clears = r.chance(1, 2);
    let fails = r.chance(1, 3);
    let slow = *r.pick(&[0u64, 0, 5, 40, 200]);
    let memo: Arc<Memoizer<Key, i64>> = Arc::new(Memoizer::new());
    let clock = Arc::new(AtomicI64::new(0));
    let fresh = Arc::new(AtomicI64::new(1));
    let log: Arc<Mutex<Vec<E>>> = Arc::new(Mutex::new(vec![]));
    let wrong = Arc::new(AtomicU64::new(0));
    let b = Arc::new(Barrier::new(threads));
    let plans: Vec<Vec<(u8, i64, bool, u8)>> = (0..threads)
        .map(|_| {
            (0..2 + r.below(5)).map(|_| (if clears && r.chance(1, 4) { 0 } else { 1 }, r.range(0, keys), fails && r.chance(1, 3), r.below(4) as u8)).collect()
        })
        .collect();
    let d = format!("{threads} threads, {buckets} buckets, {keys} keys, slow {slow} us, plans (kind, key, fails, jitter) {plans:?}");
    cx.watch_begin("memo.concurrent");
    std::thread::scope(|s| {
        for plan in &plans {
            let (memo, clock, fresh, log, wrong, b) = (memo.clone(), clock.clone(), fresh.clone(), log.clone(), wrong.clone(), b.clone());
            s.spawn(move || {
                let tick = || clock.fetch_add(1, Ordering::SeqCst);
                b.wait();
                for (kind, id, fail, jitter) in plan {
                    for _ in 0..*jitter {
                        std::thread::yield_now();
                    }
                    if *kind == 0 {
                        let start = tick();
                        memo.clear();
                        let end = tick();
                        log.lock().unwrap().push(E::Clear { start, end });
                        continue;
                    }
                    let start = tick();
                    let got = quiet(|| {
                        memo.get_or_compute(Key { id: *id, buckets, caller: 0 }, |k| {
                            let cs = tick();
                            if k.id != *id {
                                wrong.fetch_add(1, Ordering::SeqCst);
                            }
                            if slow > 0 {
                                std::thread::sleep(Duration::from_micros(slow));
                            } else {
                                std::thread::yield_now();
                            }
                            let v = fresh.fetch_add(1, Ordering::SeqCst) * 10 + k.id;
                            let ce = tick();
                            log.lock().unwrap_or_else(|e| e.into_inner()).push(E::Compute { key: k.id, start: cs, end: ce, value: (!*fail).then_some(v) });
                            if *fail {
                                inject(1)
                            }
                            v
                        })
                    });
                    let end = tick();
                    log.lock().unwrap_or_else(|e| e.into_inner()).push(E::Get { key: *id, start, end, value: got.ok() });
                }
            });
        }
    });
    cx.watch_end();
    let log = std::mem::take(&mut *log.lock().unwrap());
    let mut order = log.clone();
    order.sort_by_key(|e| match e {
        E::Get { start, .. } | E::Compute { start, .. } | E::Clear { start, .. } => *start,
    });
    let oh = hash_of(&format!("{order:?}"));
    inter.insert(oh);
    cx.case("concurrent", &oh, true, || d.clone());
    let dd = || format!("{d}\n  history {order:?}");
    cx.check("memo.key", wrong.load(Ordering::SeqCst) == 0, || format!("a computation was given another caller's key: {}", dd()));
    let comps: Vec<(i64, i64, i64, Option<i64>)> = order.iter().filter_map(|e| if let E::Compute { key, start, end, value } = e { Some((*key, *start, *end, *value)) } else { None }).collect();
    let cls: Vec<(i64, i64)> = order.iter().filter_map(|e| if let E::Clear { start, end } = e { Some((*start, *end)) } else { None }).collect();
    let gets: Vec<(i64, i64, i64, Option<i64>)> = order.iter().filter_map(|e| if let E::Get { key, start, end, value } = e { Some((*key, *start, *end, *value)) } else { None }).collect();
    if comps.iter().any(|c| c.3.is_none()) {
        cx.count("failed_computations", 1);
    }
    for (i, g) in gets.iter().enumerate() {
        if gets.iter().skip(i + 1).any(|h| h.1 < g.2) {
            cx.count("overlapping_lookups", 1);
        }
        let Some(v) = g.3 else {
            // a lookup fails only because its own computation failed
            let ok = comps.iter().any(|c| c.0 == g.0 && c.3.is_none() && g.1 < c.1 && c.2 < g.2);
            cx.check("memo.fails", ok, || format!("lookup of {} in {}..{} failed without a failing computation of its own: {}", g.0, g.1, g.2, dd()));
            continue;
        };
        let Some(c) = comps.iter().find(|c| c.0 == g.0 && c.3 == Some(v)) else {
            cx.violation("memo.value", format!("lookup of {} returned {v}, which no computation of that key produced: {}", g.0, dd()));
            continue;
        };
        cx.check("memo.before", c.2 < g.2, || format!("lookup of {} in {}..{} returned {v} before it was computed: {}", g.0, g.1, g.2, dd()));
        let stale = cls.iter().any(|cl| c.2 < cl.0 && cl.1 < g.1) && !comps.iter().any(|o| o.3 == Some(v) && o.1 > c.1);
        // the computation may have been stored only after the clear when its caller was still inside the lookup
        let stored_by = gets.iter().filter(|o| o.3 == Some(v) && o.0 == g.0 && o.1 < c.1 && o.2 > c.2).map(|o| o.2).max().unwrap_or(c.2);
        let stale = stale && cls.iter().any(|cl| stored_by < cl.0 && cl.1 < g.1);
        cx.check("memo.cleared", !stale, || format!("lookup of {} in {}..{} returned {v} although a clear finished in between: {}", g.0, g.1, g.2, dd()));
    }
    // at most one successful computation per key between clears
    for (i, a) in comps.iter().enumerate() {
        for b in comps.iter().skip(i + 1).filter(|b| b.0 == a.0) {
            if a.3.is_none() || b.3.is_none() {
                continue;
            }
            let cleared = cls.iter().any(|cl| cl.1 > a.1 && cl.0 < b.1);
            if cleared {
                cx.count("clears_between", 1);
            }
            cx.check("memo.once", cleared, || format!("key {} was computed twice ({:?} and {:?}) with no clear in between: {}", a.0, a, b, dd()));
        }
    }
    // a failed computation is not remembered: a lookup that starts after it (and no success) computes
    for g in &gets {
        let own = comps.iter().any(|c| c.0 == g.0 && g.1 < c.1 && c.2 < g.2);
        let success_before = comps.iter().any(|c| c.0 == g.0 && c.3.is_some() && c.1 < g.2);
        cx.check("memo.failed_cached", own || success_before, || format!("lookup of {} in {}..{} neither computed nor found a computed value: {}", g.0, g.1, g.2, dd()));
    }
    // did several lookups really miss at the same time?
    for c in &comps {
        if gets.iter().filter(|g| g.0 == c.0 && g.1 < c.2 && g.2 > c.1).count() > 1 {
            cx.count("contended_misses", 1);
        }
    }
    // afterwards everything present is answered without computing
    let last_clear = cls.iter().map(|c| c.1).max().unwrap_or(-1);
    for id in 0..keys {
        let known = gets.iter().any(|g| g.0 == id && g.3.is_some() && g.1 > last_clear);
        let called = Log::new();
        let cl = called.clone();
        let v = memo.get_or_compute(Key { id, buckets, caller: 0 }, |_| {
            cl.add(1);
            -5
        });
        let latest = comps.iter().filter(|c| c.0 == id && c.3.is_some()).map(|c| c.3.unwrap()).collect::<Vec<_>>();
        if known {
            cx.check("memo.after", called.is_empty() && latest.contains(&v), || format!("key {id} was lost: lookup gave {v}: {}", dd()));
        }
        memo.clear();
        let again = memo.get_or_compute(Key { id, buckets, caller: 0 }, |_| -6);
        cx.eq("memo.clear", &again, &-6, || format!("after clearing, key {id}: {}", dd()));
        break;
    }
}
/// many keys, each looked up again and again: all of them stay known until the cache is cleared
fn many(cx: &mut Ctx, keys: usize, threads: usize) {
    use std::sync::atomic::{AtomicU32, Ordering};
    let mut r = cx.rng.split();
    let memo: Memoizer<u64, (u64, u32)> = Memoizer::new();
    let salt = r.u64();
    let key = |i: usize| mix(i as u64 ^ salt);
    let rounds = 1 + r.below(3) as u32;
    let hot = r.below(keys);
    let c = || format!("{keys} keys, {threads} threads, {rounds} rounds");
    cx.case("many", &(keys, threads, rounds, salt), true, c);
    cx.max("keys", keys as u64);
    for round in 1..=rounds {
        let counts: Vec<AtomicU32> = (0..keys).map(|_| AtomicU32::new(0)).collect();
        let orders: Vec<(usize, usize)> = (0..threads).map(|_| (r.below(keys), *r.pick(&[1usize, 7, 31, 127]))).collect();
        let wrong = AtomicU32::new(0);
        let done = cx.guard("many", c, || {
            std::thread::scope(|s| {
                for (start, step) in &orders {
                    let (memo, counts, wrong, key) = (&memo, &counts, &wrong, &key);
                    s.spawn(move || {
                        for pass in 0..2 {
                            for j in 0..keys {
                                let i = if pass == 1 && j % 5 == 0 { hot } else { (start + j * step) % keys };
                                let got = memo.get_or_compute(key(i), |k| {
                                    counts[i].fetch_add(1, Ordering::Relaxed);
                                    (*k, round)
                                });
                                if got != (key(i), round) {
                                    wrong.fetch_add(1, Ordering::Relaxed);
                                }
                            }
                        }
                    });
                }
            })
        });
        if done.is_none() {
            return;
        }
        let again = counts.iter().enumerate().find(|(_, n)| n.load(Ordering::Relaxed) > 1).map(|(i, n)| (i, n.load(Ordering::Relaxed)));
        cx.eq("many.computed_once", &again, &None, c);
        cx.eq("many.values", &wrong.load(Ordering::Relaxed), &0, c);
        // everything is still known afterwards
        let lost = (0..keys).find(|i| counts[*i].load(Ordering::Relaxed) == 1 && memo.get_or_compute(key(*i), |k| (*k, 0)) != (key(*i), round));
        cx.eq("many.kept", &lost, &None, c);
        memo.clear();
    }
}
