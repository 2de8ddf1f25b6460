use mon::*;
use rustica::datatypes::async_monad::AsyncM;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::task::{Context, Poll, Wake, Waker};

type Ev = (u32, i64);
#[derive(Clone, Debug, Hash)]
enum P {
    Pure(i64),
    Leaf(u32, i64, u8),
    /// panics after its yields, or (4 and up) already while its future is made
    Fail(u32, u8),
    /// a mapped or bound function that panics, early or late
    FailMap(Box<P>, u32, u8),
    FromRes(u32, Result<i64, i64>, i64, u8),
    Fmap(Box<P>, u32, Fun, u8, bool),
    Bind(Box<P>, u32, Fun, Vec<P>, u8, bool),
    Apply(Box<P>, Box<P>, u32, Fun, bool),
    Zip(Box<P>, Box<P>, Fun),
    ZipWith(Box<P>, Box<P>, u32, Fun),
    RecoverWith(Box<P>, i64),
    /// one description used twice, in the given way (one after the other or side by side)
    Twice(Box<P>, Fun, usize),
}
fn gen_p(r: &mut Rng, d: usize, tag: &mut u32, fail: bool) -> P {
    *tag += 1;
    let (t, f) = (*tag, Fun::gen_(r));
    let y = r.below(4) as u8;
    if d == 0 || r.chance(1, 8) {
        return match r.below(8) {
            0 | 1 => P::Pure(r.small()),
            2 => P::FromRes(t, if r.chance(1, 2) { Ok(r.small()) } else { Err(r.small()) }, r.small(), y),
            3 if fail => P::Fail(t, y + 4 * r.below(2) as u8),
            _ => P::Leaf(t, r.small(), y),
        };
    }
    let mut s = |r: &mut Rng| Box::new(gen_p(r, d - 1, tag, fail));
    let o = r.chance(1, 2);
    match r.below(12) {
        0 | 1 => P::Fmap(s(r), t, f, y, o),
        2..=4 => {
            let p = s(r);
            let n = 1 + r.below(2);
            P::Bind(p, t, f, (0..n).map(|_| *s(r)).collect(), y, o)
        },
        5 => P::Apply(s(r), s(r), t, f, o),
        7 => P::Zip(s(r), s(r), f),
        6 => P::ZipWith(s(r), s(r), t, f),
        9 | 10 => P::RecoverWith(s(r), r.small()),
        8 if fail && o => P::FailMap(s(r), t, y + 4 * r.below(6) as u8),
        _ => P::Twice(s(r), f, r.below(5)),
    }
}
/// a long run of small steps, nested to the left, to the right or both
fn long_p(r: &mut Rng, tag: &mut u32, fail: bool) -> P {
    let (n, right) = (10 + r.below(90), r.below(3));
    let mut p = gen_p(r, 1, tag, fail);
    for _ in 0..n {
        *tag += 1;
        let (t, f, y, o) = (*tag, Fun::gen_(r), r.below(3) as u8, r.chance(1, 2));
        p = match r.below(12) {
            0 => P::Fmap(Box::new(p), t, f, y, o),
            1 => P::Apply(Box::new(p), Box::new(gen_p(r, 0, tag, false)), t, f, o),
            2 => P::Zip(Box::new(gen_p(r, 0, tag, false)), Box::new(p), f),
            3 => P::RecoverWith(Box::new(p), r.small()),
            4 => P::ZipWith(Box::new(p), Box::new(gen_p(r, 0, tag, false)), t, f),
            _ => {
                let kf = fail && r.chance(1, 20);
                let k = gen_p(r, 0, tag, kf);
                if right == 0 || right == 1 && r.chance(1, 2) { P::Bind(Box::new(k), t, f, vec![p], y, o) } else { P::Bind(Box::new(p), t, f, vec![k], y, o) }
            },
        };
    }
    p
}
/// functions combined with two already known values may run when the description is built
fn eff(p: &P) -> bool {
    match p {
        P::Pure(_) => false,
        P::Apply(a, b, ..) | P::Zip(a, b, _) | P::ZipWith(a, b, ..) => eff(a) || eff(b),
        P::RecoverWith(p, _) => eff(p),
        P::Twice(p, _, 1 | 2) => eff(p),
        _ => true,
    }
}
struct Steps(u8, Mode);
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Own,
    Tokio,
}
impl Future for Steps {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
async fn pause(n: u8, m: Mode) {
    match (n, m) {
        (3, Mode::Tokio) => tokio::time::sleep(std::time::Duration::from_micros(50)).await,
        _ => Steps(n, m).await,
    }
}
fn build(p: &P, log: &SLog<Ev>, m: Mode) -> AsyncM<i64> {
    let log = log.clone();
    let watched = eff(p);
    match p.clone() {
        P::Pure(a) => AsyncM::pure(a),
        P::Leaf(t, a, y) => AsyncM::new(move || {
            let log = log.clone();
            log.add((t, 2));
            async move {
                log.add((t, 0));
                pause(y, m).await;
                log.add((t, 1));
                a
            }
        }),
        P::Fail(t, y) => AsyncM::new(move || {
            let log = log.clone();
            if y >= 4 {
                log.add((t, 0));
                inject(t as i64);
            }
            async move {
                log.add((t, 0));
                pause(y, m).await;
                inject(t as i64)
            }
        }),
        P::FailMap(p, t, y) => {
            let p = build(&p, &log, m);
            let l2 = log.clone();
            let g = move |a: i64| {
                l2.add((t, a));
                if y & 4 != 0 {
                    inject(t as i64);
                }
                async move {
                    pause(y & 3, m).await;
                    inject(t as i64)
                }
            };
            let k = move |a: i64| {
                log.add((t, a));
                if y & 4 != 0 {
                    inject(t as i64);
                }
                async move {
                    pause(y & 3, m).await;
                    inject(t as i64)
                }
            };
            match y / 8 {
                0 => p.fmap(g),
                1 => p.fmap_owned(g),
                _ if t % 2 == 0 => p.bind(k),
                _ => p.bind_owned(k),
            }
        },
        P::FromRes(t, res, d, y) => AsyncM::from_result_or_default(
            move || {
                let log = log.clone();
                async move {
                    log.add((t, 0));
                    pause(y, m).await;
                    log.add((t, 1));
                    res
                }
            },
            d,
        ),
        P::Fmap(p, t, f, y, owned) => {
            let p = build(&p, &log, m);
            let g = move |a: i64| {
                let log = log.clone();
                async move {
                    log.add((t, a));
                    pause(y, m).await;
                    log.add((t, a ^ 1));
                    f.ap(a)
                }
            };
            if owned { p.fmap_owned(g) } else { p.fmap(g) }
        },
        P::Bind(p, t, f, ks, y, owned) => {
            let p = build(&p, &log, m);
            let g = move |a: i64| {
                let (log, ks) = (log.clone(), ks.clone());
                async move {
                    log.add((t, a));
                    pause(y, m).await;
                    build(&ks[f.small(a, ks.len() as u64) as usize], &log, m).fmap(move |b| async move { f.ap2(a, b) })
                }
            };
            if owned { p.bind_owned(g) } else { p.bind(g) }
        },
        P::Apply(v, g, t, f, owned) => {
            let (v, l2) = (build(&v, &log, m), log.clone());
            let mk = move |x: i64| {
                let log = log.clone();
                move |y: i64| {
                    if watched {
                        log.add((t, y));
                    }
                    f.ap2(x, y)
                }
            };
            let fs = match &*g {
                P::Pure(a) => AsyncM::pure(mk(*a)),
                g => build(g, &l2, m).fmap(move |x| {
                    let h = mk(x);
                    async move { h }
                }),
            };
            if owned { v.apply_owned(fs) } else { v.apply(fs) }
        },
        P::Zip(a, b, f) => build(&a, &log, m).zip(build(&b, &log, m)).fmap(move |(x, y)| async move { f.ap2(x, y) }),
        P::ZipWith(a, b, t, f) => build(&a, &log, m).zip_with(build(&b, &log, m), move |x, y| {
            if watched {
                log.add((t, x));
            }
            f.ap2(x, y)
        }),
        P::RecoverWith(p, d) => build(&p, &log, m).recover_with(d),
        P::Twice(p, f, how) => {
            let a = build(&p, &log, m);
            let b = a.clone();
            match how {
                1 => return a.zip(b).fmap(move |(x, y)| async move { f.ap2(x, y) }),
                2 => return a.zip_with(b, move |x, y| f.ap2(x, y)),
                3 => {
                    return a.bind(move |_| {
                        let b = b.clone();
                        async move { b }
                    });
                },
                _ => (),
            }
            a.bind(move |x| {
                let b = b.clone();
                async move { b.fmap(move |y| async move { f.ap2(x, y) }) }
            })
        },
    }
}
/// what may be observed: events in a row, or side by side in any interleaving
#[derive(Clone, Debug)]
enum Tr {
    E(Ev),
    Seq(Vec<Tr>),
    Par(Vec<Tr>),
    /// the work of a part that failed next to others: nothing is known about where they stopped
    Unknown,
}
fn run(p: &P) -> (Result<i64, ()>, Tr) {
    let watched = eff(p);
    let par = |a: &P, b: &P| -> (Option<(i64, i64)>, Tr) {
        let ((x, tx), (y, ty)) = (run(a), run(b));
        match (x, y) {
            (Ok(x), Ok(y)) => (Some((x, y)), Tr::Par(vec![tx, ty])),
            _ => (None, Tr::Unknown),
        }
    };
    match p {
        P::Pure(a) => (Ok(*a), Tr::Seq(vec![])),
        P::Leaf(t, a, _) => (Ok(*a), Tr::Seq(vec![Tr::E((*t, 2)), Tr::E((*t, 0)), Tr::E((*t, 1))])),
        P::Fail(t, _) => (Err(()), Tr::E((*t, 0))),
        P::FailMap(p, t, _) => match run(p) {
            (Ok(a), tr) => (Err(()), Tr::Seq(vec![tr, Tr::E((*t, a))])),
            bad => bad,
        },
        P::FromRes(t, r, d, _) => (Ok(r.unwrap_or(*d)), Tr::Seq(vec![Tr::E((*t, 0)), Tr::E((*t, 1))])),
        P::Fmap(p, t, f, _, _) => match run(p) {
            (Ok(a), tr) => (Ok(f.ap(a)), Tr::Seq(vec![tr, Tr::E((*t, a)), Tr::E((*t, a ^ 1))])),
            bad => bad,
        },
        P::Bind(p, t, f, ks, _, _) => match run(p) {
            (Ok(a), tr) => {
                let (b, tr2) = run(&ks[f.small(a, ks.len() as u64) as usize]);
                (b.map(|b| f.ap2(a, b)), Tr::Seq(vec![tr, Tr::E((*t, a)), tr2]))
            },
            bad => bad,
        },
        P::Apply(v, g, t, f, _) => match par(v, g) {
            (Some((y, x)), tr) => (Ok(f.ap2(x, y)), Tr::Seq(if watched { vec![tr, Tr::E((*t, y))] } else { vec![tr] })),
            (None, tr) => (Err(()), tr),
        },
        P::Zip(a, b, f) => match par(a, b) {
            (Some((x, y)), tr) => (Ok(f.ap2(x, y)), tr),
            (None, tr) => (Err(()), tr),
        },
        P::ZipWith(a, b, t, f) => match par(a, b) {
            (Some((x, y)), tr) => (Ok(f.ap2(x, y)), Tr::Seq(if watched { vec![tr, Tr::E((*t, x))] } else { vec![tr] })),
            (None, tr) => (Err(()), tr),
        },
        P::RecoverWith(p, d) => {
            let (r, tr) = run(p);
            (Ok(r.unwrap_or(*d)), tr)
        },
        P::Twice(p, f, 1 | 2) => match par(p, p) {
            (Some((x, y)), tr) => {
                // with repetitions inside, which event belongs to which copy cannot be told
                let mut all = vec![];
                let tr = if repeats(p) && events(&tr, &mut all) { Tr::Par(all.into_iter().map(Tr::E).collect()) } else { tr };
                (Ok(f.ap2(x, y)), tr)
            },
            (None, tr) => (Err(()), tr),
        },
        P::Twice(p, f, how) => match run(p) {
            (Ok(a), tr) => {
                let (b, tr2) = run(p);
                (b.map(|b| if *how == 3 { b } else { f.ap2(a, b) }), Tr::Seq(vec![tr, tr2]))
            },
            bad => bad,
        },
    }
}
/// whether some event happens several times in a row
fn repeats(p: &P) -> bool {
    match p {
        P::Pure(_) | P::Leaf(..) | P::Fail(..) | P::FromRes(..) => false,
        P::FailMap(p, ..) | P::Fmap(p, ..) | P::RecoverWith(p, _) => repeats(p),
        P::Bind(p, _, _, ks, ..) => repeats(p) || ks.iter().any(repeats),
        P::Apply(a, b, ..) | P::Zip(a, b, _) | P::ZipWith(a, b, ..) => repeats(a) || repeats(b),
        P::Twice(p, _, how) => !(1..3).contains(how) || repeats(p),
    }
}
fn events(t: &Tr, out: &mut Vec<Ev>) -> bool {
    match t {
        Tr::E(e) => {
            out.push(*e);
            true
        },
        Tr::Seq(v) | Tr::Par(v) => v.iter().fold(true, |ok, t| events(t, out) && ok),
        Tr::Unknown => false,
    }
}
/// whether the log is one of the interleavings allowed by t; equal events occur only one after the other
fn allowed(t: &Tr, log: &[Ev]) -> Result<(), String> {
    let mut want = vec![];
    if !events(t, &mut want) {
        return Ok(());
    }
    let (mut a, mut b) = (want.clone(), log.to_vec());
    a.sort();
    b.sort();
    if a != b {
        return Err("not the expected events, each exactly once".into());
    }
    let mut pos: HashMap<Ev, std::collections::VecDeque<usize>> = HashMap::new();
    for (i, e) in log.iter().enumerate() {
        pos.entry(*e).or_default().push_back(i);
    }
    fn span(t: &Tr, pos: &mut HashMap<Ev, std::collections::VecDeque<usize>>) -> Result<Option<(usize, usize)>, String> {
        match t {
            Tr::E(e) => Ok(pos.get_mut(e).and_then(|q| q.pop_front()).map(|p| (p, p))),
            Tr::Seq(v) => {
                let mut all: Option<(usize, usize)> = None;
                for t in v {
                    if let Some((lo, hi)) = span(t, pos)? {
                        if let Some((l, h)) = all {
                            if lo <= h {
                                return Err(format!("a later step ran (event {lo}) before an earlier one was finished (event {h})"));
                            }
                            all = Some((l, hi));
                        } else {
                            all = Some((lo, hi));
                        }
                    }
                }
                Ok(all)
            },
            Tr::Par(v) => {
                let mut all: Option<(usize, usize)> = None;
                for t in v {
                    if let Some((lo, hi)) = span(t, pos)? {
                        all = Some(all.map_or((lo, hi), |(l, h)| (l.min(lo), h.max(hi))));
                    }
                }
                Ok(all)
            },
            Tr::Unknown => Ok(None),
        }
    }
    span(t, &mut pos).map(|_| ())
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}
/// polls the future only when it was woken; gives up (Err) when nothing will ever wake it again
fn drive<T>(fut: impl Future<Output = T>, spurious: &mut Rng, stop_after: usize) -> Result<Option<T>, String> {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let w = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&w);
    let mut fut = std::pin::pin!(fut);
    for n in 0.. {
        if n >= stop_after {
            return Ok(None);
        }
        if n > 200_000 {
            return Err("still not finished after 200000 polls".into());
        }
        if !flag.0.swap(false, Ordering::SeqCst) && !spurious.chance(1, 3) {
            return Err("waiting although nothing will wake it".into());
        }
        if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) {
            return Ok(Some(x));
        }
    }
    unreachable!()
}

fn main() {
    main_with("C23", |cx| {
        cx.rule = "a case is a random asynchronous program (pure/new/fmap/bind/apply/zip/zip_with/recover_with/from_result_or_default/reuse; borrowed and consuming; parts that yield, sleep or fail) run on a \
                   hand-driven executor with lost-wakeup detection, on single- and multi-threaded tokio runtimes, several times at once and after cancellation; the value and the begin/end log of every part are \
                   compared with the interleavings its series-parallel structure allows. Distinct by (executor, program)."
            .into();
        {
            let mut r = cx.rng.split();
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
            mon::worn::asyncm(cx, &mut r, &rt);
        }
        cx.require("worn_runs", 20_000);
        let n = cx.n(40_000, 3_000_000);
        cx.par(8, |cx, _| {
            let one_rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            let multi = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().unwrap();
            for i in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let fail = r.chance(1, 3);
                one(cx, &mut r, fail, i, &one_rt, &multi);
                if i % 20 == 0 {
                    mon::knots::asyncm(cx, &mut r, &one_rt);
                    rendezvous(cx, &mut r, &one_rt);
                }
            }
        });
        cx.require("parallel_programs", 500);
        cx.require("failed_programs", 200);
        cx.require("recovered_programs", 100);
        cx.require("concurrent_runs", 100);
        cx.require("cancelled_runs", 300);
        cx.require("interleaved_logs", 200);
        cx.require("inside_itself", 500);
    });
}
fn has_par(t: &Tr) -> bool {
    match t {
        Tr::Par(v) => v.iter().filter(|t| {
            let mut e = vec![];
            events(t, &mut e);
            !e.is_empty()
        }).count() > 1 || v.iter().any(has_par),
        Tr::Seq(v) => v.iter().any(has_par),
        _ => false,
    }
}
fn one(cx: &mut Ctx, r: &mut Rng, fail: bool, i: usize, rt: &tokio::runtime::Runtime, multi: &tokio::runtime::Runtime) {
    let mut tag = 0;
    let d = 1 + r.below(4);
    let p = if r.chance(1, 60) { long_p(r, &mut tag, fail) } else { gen_p(r, d, &mut tag, fail) };
    let (want, tr) = run(&p);
    let exec = match i % 25 {
        0 => 2,
        1..=4 => 1,
        _ => 0,
    };
    let m = if exec == 0 { Mode::Own } else { Mode::Tokio };
    let log = SLog::new();
    let c = || format!("executor {exec}: {p:?}");
    cx.case("async", &(exec, &p), tag > 2, c);
    if has_par(&tr) {
        cx.count("parallel_programs", 1);
    }
    match (&want, format!("{p:?}").contains("Fail")) {
        (Err(()), _) => cx.count("failed_programs", 1),
        (Ok(_), true) => cx.count("recovered_programs", 1),
        _ => {},
    }
    let Some(am) = cx.guard("async.build", c, || build(&p, &log, m)) else { return };
    cx.eq("async.lazy", &log.take(), &vec![], || format!("parts ran before the first run: {}", c()));
    let cl = am.clone();
    for j in 0..3 {
        let am = if j == 1 { &cl } else { &am };
        let c = || format!("run {j}, {}", c());
        match exec {
            0 => {
                // a run given up half way must not disturb the next one
                if j == 1 {
                    cx.count("cancelled_runs", 1);
                    let k = r.below(5);
                    let _ = quiet(|| drive(am.try_get(), r, k));
                    log.take();
                }
                cx.watch_begin("async.run");
                let got = quiet(|| drive(am.try_get(), r, usize::MAX));
                cx.watch_end();
                verdict(cx, got, &want, &tr, &log, c);
            },
            1 => {
                cx.watch_begin("async.run");
                let got = quiet(|| Ok(Some(rt.block_on(am.try_get()))));
                cx.watch_end();
                verdict(cx, got, &want, &tr, &log, c);
            },
            _ => {
                // several runs of the same description at once, on several threads
                cx.count("concurrent_runs", 1);
                cx.watch_begin("async.run");
                let got: Vec<Result<i64, ()>> = multi.block_on(async {
                    let hs: Vec<_> = (0..4).map(|_| { let am = am.clone(); tokio::spawn(async move { am.try_get().await }) }).collect();
                    let mut out = vec![];
                    for h in hs {
                        out.push(h.await.map_err(|_| ()));
                    }
                    out
                });
                cx.watch_end();
                cx.eq("async.concurrent", &got, &vec![want; 4], c);
                let mut exp = vec![];
                if events(&tr, &mut exp) {
                    let mut exp: Vec<Ev> = (0..4).flat_map(|_| exp.clone()).collect();
                    exp.sort();
                    let mut l = log.take();
                    l.sort();
                    cx.eq("async.concurrent.calls", &l, &exp, c);
                }
                log.take();
            },
        }
    }
}
fn verdict(cx: &mut Ctx, got: Result<Result<Option<i64>, String>, Panic>, want: &Result<i64, ()>, tr: &Tr, log: &SLog<Ev>, c: impl Fn() -> String) {
    let l = log.take();
    match got {
        Ok(Ok(v)) => cx.eq("async.run", &v.ok_or(()), want, &c),
        Ok(Err(e)) => cx.violation("async.stuck", format!("{e}: {}", c())),
        Err(p) => cx.check("async.run", want.is_err() && p.injected.is_some(), || format!("failed with {} at {}: {}", p.msg, p.loc, c())),
    }
    if let Err(e) = allowed(tr, &l) {
        cx.violation("async.order", format!("{e}\n  log {l:?}\n  structure {tr:?}\n  {}", c()));
    } else {
        cx.check("async.order", true, String::new);
        // was the log really an interleaving, not one part after the other?
        let mut flat = vec![];
        if events(tr, &mut flat) && flat != l {
            cx.count("interleaved_logs", 1);
        }
    }
}
/// two parts that need each other only finish when they run side by side
fn rendezvous(cx: &mut Ctx, r: &mut Rng, rt: &tokio::runtime::Runtime) {
    let (a, b) = (r.small(), r.small());
    let how = r.below(4);
    let runs = Arc::new(AtomicU64::new(0));
    let (tx1, rx1) = tokio::sync::mpsc::unbounded_channel::<i64>();
    let (tx2, rx2) = tokio::sync::mpsc::unbounded_channel::<i64>();
    let (rx1, rx2) = (Arc::new(tokio::sync::Mutex::new(rx1)), Arc::new(tokio::sync::Mutex::new(rx2)));
    let ra = runs.clone();
    let left = AsyncM::new(move || {
        let (tx, rx, ra) = (tx1.clone(), rx2.clone(), ra.clone());
        async move {
            ra.fetch_add(1, Ordering::SeqCst);
            let _ = tx.send(a);
            rx.lock().await.recv().await.unwrap_or(-1)
        }
    });
    let rb = runs.clone();
    let right = AsyncM::new(move || {
        let (tx, rx, rb) = (tx2.clone(), rx1.clone(), rb.clone());
        async move {
            rb.fetch_add(1, Ordering::SeqCst);
            let v = rx.lock().await.recv().await.unwrap_or(-1);
            let _ = tx.send(b);
            v
        }
    });
    let swap = r.chance(1, 2);
    let c = || format!("values {a} {b}, how {how}, swapped {swap}");
    cx.case("rendezvous", &(a, b, how, swap), true, c);
    let (l, rr) = if swap { (right, left) } else { (left, right) };
    let am = match how {
        0 => l.zip(rr),
        1 => l.zip_with(rr, |x, y| (x, y)),
        // applying runs the function's part and the argument's part together, too
        2 => l.apply(rr.fmap(|y| async move { move |x: i64| (x, y) })),
        _ => l.apply_owned(rr.fmap(|y| async move { move |x: i64| (x, y) })),
    };
    for _ in 0..2 {
        cx.watch_begin("async.rendezvous");
        let got = quiet(|| rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(20), am.try_get()).await }));
        cx.watch_end();
        let want = if swap { (a, b) } else { (b, a) };
        match got {
            Ok(Ok(v)) => cx.eq("async.parallel", &v, &want, c),
            Ok(Err(_)) => {
                cx.violation("async.parallel", format!("two parts combined in parallel wait for each other forever: {}", c()));
                return;
            },
            Err(p) => cx.violation("async.parallel", format!("panic {} at {}: {}", p.msg, p.loc, c())),
        }
    }
    cx.eq("async.parallel.runs", &runs.load(Ordering::SeqCst), &4, c);
}
