use mon::*;
use rustica::datatypes::io::IO;
use std::collections::HashSet;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Barrier};
use std::task::{Context, Poll};
use std::time::Duration;

/// what one source looks like and how it is run
#[derive(Clone, Debug, Hash)]
struct Case {
    seed: u64,
    kind: u8,
    runners: usize,
    per: usize,
    style: u8,
    delay_us: u64,
    panics: bool,
}
/// counts of what really happened inside the future
#[derive(Default)]
struct Seen {
    started: AtomicU64,
    finished: AtomicU64,
    done: AtomicBool,
    clock: AtomicI64,
    polls_after_done: AtomicU64,
}
/// completes after n polls, waking itself in between (from another thread now and then)
struct Steps {
    left: u32,
    remote: bool,
}
impl Future for Steps {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.left == 0 {
            return Poll::Ready(());
        }
        self.left -= 1;
        if self.remote {
            let w = cx.waker().clone();
            std::thread::spawn(move || {
                std::thread::yield_now();
                w.wake();
            });
        } else {
            cx.waker().wake_by_ref();
        }
        Poll::Pending
    }
}
fn source(c: &Case, seen: &Arc<Seen>) -> IO<Arc<(i64, String)>> {
    let (seen, c) = (seen.clone(), c.clone());
    let k = c.kind;
    let fut = async move {
        seen.started.fetch_add(1, Ordering::SeqCst);
        match k {
            0 => {},
            1 => tokio::time::sleep(Duration::from_micros(c.delay_us)).await,
            2 => Steps { left: 3, remote: false }.await,
            3 => Steps { left: 2, remote: true }.await,
            4 => {
                let (tx, rx) = tokio::sync::oneshot::channel();
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_micros(c.delay_us));
                    let _ = tx.send(());
                });
                let _ = rx.await;
            },
            5 => {
                let a = tokio::spawn(async { 1 });
                let b = tokio::spawn(async { 2 });
                let _ = tokio::join!(a, b);
            },
            6 => std::thread::sleep(Duration::from_micros(c.delay_us)),
            _ => {
                let _ = tokio::task::spawn_blocking(move || std::thread::sleep(Duration::from_micros(c.delay_us))).await;
            },
        }
        if c.panics {
            inject(9);
        }
        // a value that no second execution would produce again
        let n = seen.finished.fetch_add(1, Ordering::SeqCst) as i64;
        seen.done.store(true, Ordering::SeqCst);
        Arc::new((c.seed as i64 + n, format!("v{}.{n}", c.seed)))
    };
    IO::new_async(fut)
}
/// what one runner saw: its place in the order of starts, whether it overlapped, and the value (None: it failed)
#[derive(Clone, Debug)]
struct Obs {
    start: i64,
    end: i64,
    value: Result<i64, String>,
    finished_before_return: bool,
}

fn main() {
    main_with("C22", |cx| {
        cx.rule = "a case is a one-shot asynchronous source (ready, sleeping, self-waking, woken from other threads, channel, spawning, blocking, panicking) run by several OS threads, async tasks or through \
                   mapped/bound copies at the same time; the number of executions, every returned value, and whether a run returned before the work was finished are recorded. Distinct by (source, runners, \
                   style, observed interleaving of starts and ends)."
            .into();
        // the running times are dominated by threads waiting for each other, so more workers than cores
        let n = cx.n(12_000, 400_000);
        cx.par(8, |cx, _| {
            let mut inter = HashSet::new();
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                one(cx, &mut r, &mut inter);
            }
            cx.count("distinct_interleavings", inter.len() as u64);
        });
        for _ in 0..cx.n(400, 20_000) {
            if !cx.go() {
                break;
            }
            let mut r = cx.rng.split();
            same_runtime(cx, &mut r);
        }
        cx.require("overlapping_runs", 300);
        cx.require("same_runtime_runs", 400);
        cx.require("late_runs", 300);
        cx.require("panicking_sources", 20);
        cx.require("distinct_interleavings", 200);
    });
}
fn one(cx: &mut Ctx, r: &mut Rng, inter: &mut HashSet<u64>) {
    let c = Case {
        seed: r.u64() % 1_000_000,
        kind: r.below(8) as u8,
        runners: 1 + r.below(6),
        per: 1 + r.below(3),
        style: r.below(6) as u8,
        delay_us: *r.pick(&[0, 1, 20, 100, 400, 1500]),
        panics: r.chance(1, 20),
    };
    let seen = Arc::new(Seen::default());
    let io = source(&c, &seen);
    let d = || format!("{c:?}");
    // making and combining the description does not start the work
    let calls = Arc::new(AtomicU64::new(0));
    let cl = calls.clone();
    let mapped = io.fmap(move |v| {
        cl.fetch_add(1, Ordering::SeqCst);
        v.0
    });
    let bound = io.bind(|v| IO::pure(v.0));
    std::thread::yield_now();
    cx.check("new_async.lazy", seen.started.load(Ordering::SeqCst) == 0, || format!("the source started before any run: {}", d()));
    let (tx, rx) = mpsc::channel::<Vec<Obs>>();
    let barrier = Arc::new(Barrier::new(c.runners));
    let mut mapped_runs = 0u64;
    for i in 0..c.runners {
        let how = match c.style {
            0 => 0,
            1 => i % 4,
            2 => 1 + i % 2,
            3 => 3,
            4 => 4,
            _ => r.below(5),
        };
        if how == 1 {
            mapped_runs += c.per as u64;
        }
        let (tx, b, seen, io, mapped, bound) = (tx.clone(), barrier.clone(), seen.clone(), io.clone(), mapped.clone(), bound.clone());
        let (per, jitter) = (c.per, r.below(4) as u64 * r.below(60) as u64);
        std::thread::spawn(move || {
            let mut obs = vec![];
            let rt = (how >= 3).then(|| {
                if how == 3 {
                    tokio::runtime::Builder::new_current_thread().build().unwrap()
                } else {
                    tokio::runtime::Builder::new_multi_thread().worker_threads(2).build().unwrap()
                }
            });
            b.wait();
            if jitter > 0 {
                std::thread::sleep(Duration::from_micros(jitter));
            }
            for _ in 0..per {
                let start = seen.clock.fetch_add(1, Ordering::SeqCst);
                let got = quiet(|| match how {
                    0 => io.run().0,
                    1 => mapped.run(),
                    2 => bound.run(),
                    3 => rt.as_ref().unwrap().block_on(io.run_async()).0,
                    _ => rt.as_ref().unwrap().block_on(async {
                        let io = io.clone();
                        // directly inside an async task, without a blocking thread
                        tokio::spawn(async move { io.run().0 }).await.unwrap_or_else(|e| std::panic::resume_unwind(e.into_panic()))
                    }),
                });
                let fin = seen.done.load(Ordering::SeqCst);
                let end = seen.clock.fetch_add(1, Ordering::SeqCst);
                obs.push(Obs { start, end, value: got.map_err(|p| format!("{} at {}", p.msg, p.loc)), finished_before_return: fin });
            }
            let _ = tx.send(obs);
        });
    }
    drop(tx);
    let mut all: Vec<Obs> = vec![];
    for _ in 0..c.runners {
        match rx.recv_timeout(Duration::from_secs(30)) {
            Ok(o) => all.extend(o),
            Err(_) => {
                cx.violation("new_async.hang", format!("a run did not return within 30 s: {}; started {} finished {}", d(), seen.started.load(Ordering::SeqCst), seen.finished.load(Ordering::SeqCst)));
                return;
            },
        }
    }
    all.sort_by_key(|o| o.start);
    let order: Vec<(i64, i64)> = all.iter().map(|o| (o.start, o.end)).collect();
    let oh = hash_of(&(&order, c.kind, c.runners, c.per, c.style));
    inter.insert(oh);
    cx.case("new_async", &(oh, c.delay_us), c.runners > 1, d);
    for (i, o) in all.iter().enumerate() {
        if all.iter().enumerate().any(|(j, p)| j != i && p.start < o.end && o.start < p.end) {
            cx.count("overlapping_runs", 1);
        } else {
            cx.count("late_runs", 1);
        }
    }
    let dd = || format!("{}\n  runs (start, end, value): {:?}", d(), all.iter().map(|o| (o.start, o.end, o.value.clone())).collect::<Vec<_>>());
    let started = seen.started.load(Ordering::SeqCst);
    cx.check("new_async.once", started <= 1, || format!("the source was executed {started} times: {}", dd()));
    if c.panics {
        cx.count("panicking_sources", 1);
        cx.check("new_async.panicked.value", all.iter().all(|o| o.value.is_err()), || format!("a run returned a value although the work failed: {}", dd()));
        return;
    }
    let want = Ok(c.seed as i64);
    for o in &all {
        cx.check("new_async.value", o.value == want, || format!("a run gave {:?}, expected {want:?}: {}", o.value, dd()));
        cx.check("new_async.complete", o.finished_before_return, || format!("a run returned before the work was finished: {}", dd()));
    }
    cx.check("new_async.ran", started == 1, || format!("the source was executed {started} times: {}", dd()));
    cx.eq("new_async.mapped", &calls.load(Ordering::SeqCst), &mapped_runs, || format!("calls of the mapped function: {}", dd()));
    // much later, from this thread, through every copy
    if let Some(v) = cx.guard("new_async.late", d, || (io.run().1.clone(), mapped.run(), bound.run(), io.clone().run().0)) {
        cx.eq("new_async.late", &v, &(format!("v{}.0", c.seed), c.seed as i64, c.seed as i64, c.seed as i64), dd);
        cx.eq("new_async.late.once", &seen.started.load(Ordering::SeqCst), &1, dd);
    }
    nested(cx, r);
    if r.chance(1, 6) {
        let v = r.small();
        let us = r.below(500) as u64;
        if let Some(g) = cx.guard("io.delay", d, || {
            let t = std::time::Instant::now();
            let g = IO::delay(Duration::from_micros(us), v).run();
            (g, t.elapsed() >= Duration::from_micros(us))
        }) {
            cx.eq("io.delay", &g, &(v, true), || format!("delay of {us} us"));
        }
    }
}
/// a source whose work itself runs another one
fn nested(cx: &mut Ctx, r: &mut Rng) {
    if !r.chance(1, 5) {
        return;
    }
    let v = r.small();
    let n = Arc::new(AtomicU64::new(0));
    let n2 = n.clone();
    let inner = IO::new_async(async move {
        n2.fetch_add(1, Ordering::SeqCst);
        Steps { left: 1, remote: false }.await;
        v
    });
    let i2 = inner.clone();
    let outer = IO::new_async(async move { i2.run().wrapping_mul(2) });
    let (a, b) = (inner.clone(), outer.clone());
    if let Some(g) = cx.guard("new_async.nested", || format!("value {v}"), || {
        std::thread::scope(|s| {
            let h = s.spawn(|| a.run());
            let k = s.spawn(|| b.run());
            (h.join().unwrap(), k.join().unwrap())
        })
    }) {
        cx.eq("new_async.nested", &g, &(v, v.wrapping_mul(2)), || format!("value {v}"));
        cx.eq("new_async.nested.once", &n.load(Ordering::SeqCst), &1, || format!("value {v}"));
    }
}
/// Several runs awaited on one runtime whose other tasks provide what the source waits for;
/// some runs are given up half way. Nobody may be stuck, and everybody gets the one result.
fn same_runtime(cx: &mut Ctx, r: &mut Rng) {
    let single = r.chance(2, 3);
    let runs = 1 + r.below(4);
    let give_up: Vec<bool> = (0..runs).map(|_| r.chance(1, 4)).collect();
    let spawned = r.chance(1, 2);
    let v = r.small();
    let us = r.below(300) as u64;
    let d = format!("{runs} run_async on a {} runtime, given up {give_up:?}, spawned {spawned}, value {v}, delay {us} us", if single { "current-thread" } else { "two-thread" });
    let (done, result) = mpsc::channel();
    let gu = give_up.clone();
    std::thread::spawn(move || {
        let rt = if single {
            tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
        };
        let started = Arc::new(AtomicU64::new(0));
        let s2 = started.clone();
        let out = quiet(|| {
            rt.block_on(async {
                let (tx, rx) = tokio::sync::oneshot::channel::<i64>();
                let io = IO::new_async(async move {
                    s2.fetch_add(1, Ordering::SeqCst);
                    rx.await.unwrap_or(i64::MIN)
                });
                let feeder = tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_micros(us)).await;
                    let _ = tx.send(v);
                });
                let mut futs: Vec<Pin<Box<dyn Future<Output = Option<i64>> + Send>>> = vec![];
                for g in gu {
                    let io = io.clone();
                    let run = async move {
                        if g {
                            tokio::time::timeout(Duration::from_micros(us / 2), io.run_async()).await.ok()
                        } else {
                            Some(io.run_async().await)
                        }
                    };
                    if spawned {
                        let h = tokio::spawn(run);
                        futs.push(Box::pin(async move { h.await.unwrap_or(Some(i64::MAX)) }));
                    } else {
                        futs.push(Box::pin(run));
                    }
                }
                let mut got = futures::future::join_all(futs).await;
                let _ = feeder.await;
                got.push(Some(io.run_async().await));
                got
            })
        });
        let n = started.load(Ordering::SeqCst);
        // every run is over: nothing is left that needs this runtime
        rt.shutdown_background();
        let _ = done.send((out.map_err(|p| p.msg), n));
    });
    match result.recv_timeout(Duration::from_secs(20)) {
        Err(_) => cx.violation("new_async.stuck", format!("the runs did not return within 20 s: {d}")),
        Ok((Err(m), _)) => cx.violation("new_async.failed", format!("a run failed ({m}): {d}")),
        Ok((Ok(got), n)) => {
            let fine = got.iter().enumerate().all(|(i, g)| *g == Some(v) || (g.is_none() && give_up.get(i) == Some(&true)));
            cx.check("new_async.same_runtime", fine, || format!("got {got:?}: {d}"));
            cx.check("new_async.same_runtime.once", n == 1, || format!("source executed {n} times: {d}"));
            cx.count("same_runtime_runs", got.len() as u64);
        },
    }
    cx.case("same_runtime", &d, true, || d.clone());
}
