use mon::*;
use rustica::datatypes::io::{IO, IOError};
use rustica::error::ComposableError;
use rustica::traits::evaluate::Evaluate;
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Duration;

type Ev = (u32, i64);
#[derive(Clone, Debug, Hash)]
enum P {
    Pure(i64),
    /// an effect: advances the world, returns a value that depends on it, fails now and then
    New(u32, Fun, bool),
    Delay(i64),
    When(u32, Fun),
    Fmap(Box<P>, u32, Fun, bool),
    Bind(Box<P>, u32, Fun, Vec<P>),
    Apply(Box<P>, Box<P>, u32, Fun),
    Combine(Box<P>, Box<P>, Fun),
    Seq(Vec<P>),
    Recover(Box<P>, u32, Fun, Vec<P>),
    RecoverWith(Box<P>, i64),
    /// one description used several times, in the given way
    Twice(Box<P>, Fun, usize),
}
/// how a step failed
#[derive(Clone, Debug, PartialEq)]
enum Fail {
    Msg(String),
    Str(&'static str),
    Other,
}
const STRS: [&str; 6] = ["disk full", "no route", "", " padded\t", "two\nlines\n", "IO Error: é\u{0}"];
fn fail_of(t: u32, f: Fun, w: i64) -> Option<Fail> {
    match f.small(w ^ 77, 6) {
        0 => Some(match f.small(w ^ 99, 5) {
            0 => Fail::Str(STRS[f.small(w, STRS.len() as u64) as usize]),
            1 => Fail::Other,
            2 => Fail::Msg(format!("boom {t} at {w}  \n")),
            _ => Fail::Msg(format!("boom {t} at {w}")),
        }),
        _ => None,
    }
}
fn raise(f: Fail) -> ! {
    match f {
        Fail::Msg(s) => std::panic::panic_any(s),
        Fail::Str(s) => std::panic::panic_any(s),
        Fail::Other => inject(5),
    }
}
/// what a recovery step can tell about the error it was given
fn seen(m: &str) -> i64 {
    if m.starts_with("boom ") || STRS.contains(&m) { (hash_of(m) % 1_000_003) as i64 } else { -1 }
}
impl Fail {
    fn seen(&self) -> i64 {
        match self {
            Fail::Msg(s) => seen(s),
            Fail::Str(s) => seen(s),
            Fail::Other => -1,
        }
    }
}
#[derive(Clone, Default)]
struct World {
    n: Arc<AtomicI64>,
    log: SLog<Ev>,
}
impl World {
    fn tick(&self) -> i64 {
        self.n.fetch_add(1, Ordering::SeqCst)
    }
}
fn gen_p(r: &mut Rng, d: usize, tag: &mut u32, fallible: bool) -> P {
    *tag += 1;
    let (t, f) = (*tag, Fun::gen_(r));
    if d == 0 || r.chance(1, 8) {
        return match r.below(12) {
            0..=2 => P::Pure(r.small()),
            3 => P::When(t, f),
            4 => P::Delay(r.small()),
            _ => P::New(t, f, fallible && r.chance(1, 2)),
        };
    }
    let mut s = |r: &mut Rng| Box::new(gen_p(r, d - 1, tag, fallible));
    match r.below(14) {
        0 | 1 => P::Fmap(s(r), t, f, fallible && r.chance(1, 4)),
        2..=4 => {
            let p = s(r);
            let n = 1 + r.below(2);
            P::Bind(p, t, f, (0..n).map(|_| *s(r)).collect())
        },
        5 | 6 => P::Apply(s(r), s(r), t, f),
        7 => P::Combine(s(r), s(r), f),
        8 => {
            let n = if r.chance(1, 12) { r.below(40) } else { r.below(5) };
            P::Seq((0..n).map(|_| *s(r)).collect())
        },
        9 | 10 => {
            let p = s(r);
            let n = 1 + r.below(2);
            P::Recover(p, t, f, (0..n).map(|_| *s(r)).collect())
        },
        11 => P::RecoverWith(s(r), r.small()),
        12 => P::Twice(s(r), f, r.below(7)),
        _ => P::Fmap(s(r), t, f, false),
    }
}
/// a long run of small steps, nested to the left, to the right or both
fn long_p(r: &mut Rng, tag: &mut u32, fallible: bool) -> P {
    let (n, right) = (10 + r.below(180), r.below(3));
    let mut p = gen_p(r, 1, tag, fallible);
    for _ in 0..n {
        *tag += 1;
        let (t, f) = (*tag, Fun::gen_(r));
        p = match r.below(12) {
            0 => P::Fmap(Box::new(p), t, f, false),
            1 => P::Apply(Box::new(p), Box::new(gen_p(r, 0, tag, false)), t, f),
            2 => P::Apply(Box::new(gen_p(r, 0, tag, false)), Box::new(p), t, f),
            3 => P::Recover(Box::new(p), t, f, vec![gen_p(r, 0, tag, false)]),
            4 => P::Combine(Box::new(p), Box::new(gen_p(r, 0, tag, false)), f),
            _ => {
                let kf = fallible && r.chance(1, 20);
                let k = gen_p(r, 0, tag, kf);
                if right == 0 || right == 1 && r.chance(1, 2) { P::Bind(Box::new(k), t, f, vec![p]) } else { P::Bind(Box::new(p), t, f, vec![k]) }
            },
        };
    }
    p
}
/// whether running the head of this program is certainly an effect: functions mapped over or bound to
/// an already known value may run when the description is built, so only the others are watched
fn eff(p: &P) -> bool {
    match p {
        P::Pure(_) => false,
        P::Fmap(p, ..) | P::Bind(p, ..) | P::Recover(p, ..) | P::RecoverWith(p, _) | P::Twice(p, ..) => eff(p),
        P::Apply(a, b, ..) | P::Combine(a, b, _) => eff(a) || eff(b),
        P::Seq(ps) => ps.iter().any(eff),
        _ => true,
    }
}
fn build(p: &P, w: &World) -> IO<i64> {
    let w = w.clone();
    let watched = eff(p);
    match p.clone() {
        P::Pure(a) => IO::pure(a),
        P::New(t, f, fallible) => IO::new(move || {
            let n = w.tick();
            w.log.add((t, n));
            if fallible {
                if let Some(e) = fail_of(t, f, n) {
                    raise(e);
                }
            }
            f.ap(n)
        }),
        P::Delay(a) => IO::delay_sync(Duration::from_nanos(1), a),
        P::When(t, f) => {
            let (w2, w3) = (w.clone(), w.clone());
            IO::when(
                move || {
                    let n = w.tick();
                    w.log.add((t, n));
                    f.pred(n)
                },
                move || {
                    let n = w2.tick();
                    w2.log.add((t, -n));
                    1
                },
                move || {
                    let n = w3.tick();
                    w3.log.add((t, -1000 - n));
                    2
                },
            )
        },
        P::Fmap(p, t, f, fallible) => build(&p, &w).fmap(move |a| {
            if watched {
                let n = w.tick();
                w.log.add((t, a));
                if fallible {
                    if let Some(e) = fail_of(t, f, n) {
                        raise(e);
                    }
                }
            }
            f.ap(a)
        }),
        P::Bind(p, t, f, ks) => build(&p, &w).bind(move |a| {
            if watched {
                w.log.add((t, a));
            }
            build(&ks[f.small(a, ks.len() as u64) as usize], &w).fmap(move |b| f.ap2(a, b))
        }),
        P::Apply(v, g, t, f) => {
            let v = build(&v, &w);
            v.apply(build(&g, &w).fmap(move |x| {
                let w = w.clone();
                move |y: i64| {
                    if watched {
                        w.log.add((t, y));
                    }
                    f.ap2(x, y)
                }
            }))
        },
        P::Combine(a, b, f) => IO::<i64>::combine(&build(&a, &w), &build(&b, &w)).fmap(move |(x, y)| f.ap2(x, y)),
        P::Seq(ps) => IO::<i64>::sequence(mon::hinted_as(ps.len() as u64, ps.iter().map(|p| build(p, &w)).collect::<Vec<_>>())).fmap(|vs| vs.iter().fold(vs.len() as i64, |a, b| a.wrapping_mul(31).wrapping_add(*b))),
        P::Recover(p, t, f, ks) => build(&p, &w).recover(move |e: Box<ComposableError<IOError>>| {
            let m = match e.core_error() {
                IOError::Other(m) => seen(m),
                other => hash_of(&format!("{other:?}")) as i64,
            };
            w.log.add((t, m));
            build(&ks[f.small(m, ks.len() as u64) as usize], &w)
        }),
        P::RecoverWith(p, d) => build(&p, &w).recover_with(d),
        P::Twice(p, f, how) => {
            let io = build(&p, &w);
            let io2 = io.clone();
            let seq = |ios: Vec<IO<i64>>| IO::<i64>::sequence(ios).fmap(move |vs| vs.iter().fold(0, |a, b| f.ap2(a, *b)));
            match how {
                0 => io.bind(move |a| io2.fmap(move |b| f.ap2(a, b))),
                1 => IO::<i64>::combine(&io, &io2).fmap(move |(a, b)| f.ap2(f.ap2(0, a), b)),
                2 => seq(vec![io, io2]),
                3 => seq(vec![io2, IO::pure(7), io.clone(), io]),
                4 => io.recover(move |_| io2.clone()),
                5 => IO::sequence(vec![io; 3]).bind(move |vs| {
                    let sum = vs.iter().fold(0, |a, b| f.ap2(a, *b));
                    io2.fmap(move |b| f.ap2(sum, b))
                }),
                _ => io.bind(move |_| io2.clone()),
            }
        },
    }
}
struct MW {
    n: i64,
    log: Vec<Ev>,
}
impl MW {
    fn tick(&mut self) -> i64 {
        self.n += 1;
        self.n - 1
    }
}
fn run(p: &P, w: &mut MW) -> Result<i64, Fail> {
    let watched = eff(p);
    Ok(match p {
        P::Pure(a) | P::Delay(a) => *a,
        P::New(t, f, fallible) => {
            let n = w.tick();
            w.log.push((*t, n));
            if *fallible {
                if let Some(e) = fail_of(*t, *f, n) {
                    return Err(e);
                }
            }
            f.ap(n)
        },
        P::When(t, f) => {
            let n = w.tick();
            w.log.push((*t, n));
            let m = w.tick();
            if f.pred(n) {
                w.log.push((*t, -m));
                1
            } else {
                w.log.push((*t, -1000 - m));
                2
            }
        },
        P::Fmap(p, t, f, fallible) => {
            let a = run(p, w)?;
            if watched {
                let n = w.tick();
                w.log.push((*t, a));
                if *fallible {
                    if let Some(e) = fail_of(*t, *f, n) {
                        return Err(e);
                    }
                }
            }
            f.ap(a)
        },
        P::Bind(p, t, f, ks) => {
            let a = run(p, w)?;
            if watched {
                w.log.push((*t, a));
            }
            let b = run(&ks[f.small(a, ks.len() as u64) as usize], w)?;
            f.ap2(a, b)
        },
        P::Apply(v, g, t, f) => {
            let x = run(g, w)?;
            let y = run(v, w)?;
            if watched {
                w.log.push((*t, y));
            }
            f.ap2(x, y)
        },
        P::Combine(a, b, f) => {
            let x = run(a, w)?;
            f.ap2(x, run(b, w)?)
        },
        P::Seq(ps) => {
            let mut acc = ps.len() as i64;
            for p in ps {
                acc = acc.wrapping_mul(31).wrapping_add(run(p, w)?);
            }
            acc
        },
        P::Recover(p, t, f, ks) => match run(p, w) {
            Ok(a) => a,
            Err(e) => {
                let m = e.seen();
                w.log.push((*t, m));
                run(&ks[f.small(m, ks.len() as u64) as usize], w)?
            },
        },
        P::RecoverWith(p, d) => run(p, w).unwrap_or(*d),
        P::Twice(p, f, how) => match how {
            0 => {
                let a = run(p, w)?;
                f.ap2(a, run(p, w)?)
            },
            1 | 2 => {
                let a = run(p, w)?;
                f.ap2(f.ap2(0, a), run(p, w)?)
            },
            3 => {
                let a = f.ap2(f.ap2(0, run(p, w)?), 7);
                let a = f.ap2(a, run(p, w)?);
                f.ap2(a, run(p, w)?)
            },
            4 => match run(p, w) {
                Ok(a) => a,
                Err(_) => run(p, w)?,
            },
            5 => {
                let mut a = 0;
                for _ in 0..4 {
                    a = f.ap2(a, run(p, w)?);
                }
                a
            },
            _ => {
                run(p, w)?;
                run(p, w)?
            },
        },
    })
}

fn main() {
    main_with("C21", |cx| {
        cx.rule = "a case is a random IO program (pure/new/when/delay/fmap/bind/apply/combine/sequence/recover/recover_with/reuse, steps that fail by panicking) run repeatedly against a shared world; the \
                   result, the failure, the world and the log of every effect and function call are compared with straight-line code, and the log must be empty before the first run. Distinct by program."
            .into();
        mon::shapes::rounds(cx);
        let mut r = cx.rng.split();
        mon::worn::io(cx, &mut r);
        cx.require("worn_runs", 4_000);
        let n = cx.n(60_000, 4_000_000);
        for i in 0..9 {
            let mut r = cx.rng.split();
            wide(cx, &mut r, i);
        }
        cx.par(8, |cx, k| {
            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
            for i in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let fallible = r.chance(2, 3);
                one(cx, &mut r, fallible, i, &rt);
                lists(cx, &mut r);
                if i % 40 == 0 {
                    delays(cx, &mut r);
                }
                if i % 20 == 0 {
                    mon::knots::io(cx, &mut r);
                }
                if i % 8 == 0 {
                    batch(cx, &mut r);
                }
                if i % 100 == 0 && k < 2 {
                    long(cx, &mut r);
                }
            }
        });
        cx.require("failed_runs", 500);
        cx.require("recovered_runs", 200);
        cx.require("async_runs", 20);
        cx.require("several_effects", 1000);
        cx.require("inside_itself", 500);
    });
}
/// the failure a fallible run reported, as far as the caller can tell
fn got_fail(e: &ComposableError<IOError>) -> (i64, Vec<String>) {
    let m = match e.core_error() {
        IOError::Other(m) => seen(m),
        o => hash_of(&format!("{o:?}")) as i64,
    };
    (m, e.context().to_vec())
}
fn one(cx: &mut Ctx, r: &mut Rng, fallible: bool, i: usize, rt: &tokio::runtime::Runtime) {
    let mut tag = 0;
    let d = 1 + r.below(4);
    let p = if r.chance(1, 60) { long_p(r, &mut tag, fallible) } else { gen_p(r, d, &mut tag, fallible) };
    let w = World::default();
    let c = || format!("{p:?}");
    cx.case("io", &p, tag > 2, c);
    let Some(io) = cx.guard("io.build", c, || build(&p, &w)) else { return };
    cx.eq("io.lazy", &(w.log.take(), w.n.load(Ordering::SeqCst)), &(Vec::<Ev>::new(), 0), || format!("effects happened before the first run: {}", c()));
    cx.check("io.kind", io.is_pure() != io.is_effect() && (!eff(&p) || io.is_effect()), || format!("is_pure {} is_effect {}: {}", io.is_pure(), io.is_effect(), c()));
    let mut m = MW { n: 0, log: vec![] };
    let ctxm = r.string();
    let cl = io.clone();
    for how in 0..8 {
        let how = if how == 0 { 0 } else { r.below(10) };
        m.log.clear();
        let want = run(&p, &mut m);
        if want.is_err() {
            cx.count("failed_runs", 1);
        } else if format!("{p:?}").contains("Recover") {
            cx.count("recovered_runs", 1);
        }
        if m.log.len() > 2 {
            cx.count("several_effects", 1);
        }
        let cc = || format!("how {how}, world now {}, context {ctxm:?}: {}", m.n, c());
        let plain = want.clone().map_err(|e| (e.seen(), Vec::<String>::new()));
        let with_ctx = want.clone().map_err(|e| (e.seen(), vec![ctxm.clone()]));
        match how {
            0 | 1 | 2 | 9 => {
                let io = if how == 1 { &cl } else { &io };
                cx.watch_begin("io.run");
                let got = quiet(|| match how {
                    2 => io.evaluate(),
                    9 if want.is_ok() && i % 10 == 0 => rt.block_on(io.run_async()),
                    _ => io.run(),
                });
                cx.watch_end();
                if how == 9 && i % 10 == 0 {
                    cx.count("async_runs", 1);
                }
                let got = got.map_err(|p| if p.injected.is_some() { -1 } else { seen(&p.msg) });
                cx.eq("io.run", &got, &want.map_err(|e| e.seen()), cc);
            },
            3 => {
                if let Some(g) = cx.guard("io.try_get", cc, || io.try_get()) {
                    cx.eq("io.try_get", &g.map_err(|e| got_fail(&e)), &plain, cc);
                }
            },
            4 => {
                if let Some(g) = cx.guard("io.try_get_with_context", cc, || io.try_get_with_context(ctxm.clone())) {
                    cx.eq("io.try_get_with_context", &g.map_err(|e| got_fail(&e)), &with_ctx, cc);
                }
            },
            5 => {
                if let Some(g) = cx.guard("io.try_get_composable", cc, || io.try_get_composable()) {
                    cx.eq("io.try_get_composable", &g.map_err(|e| got_fail(&e)), &plain, cc);
                }
            },
            6 => {
                if let Some(g) = cx.guard("io.try_get_composable_with_context", cc, || io.try_get_composable_with_context(ctxm.clone())) {
                    cx.eq("io.try_get_composable_with_context", &g.map_err(|e| got_fail(&e)), &with_ctx, cc);
                }
            },
            7 => {
                // the pipeline runs the effects once, when it is made
                if let Some(g) = cx.guard("io.into_error_pipeline", cc, || io.clone().into_error_pipeline().with_context(ctxm.clone()).finish()) {
                    let got = g.map_err(|e| {
                        let (m, inner) = got_fail(e.core_error());
                        (m, [inner, e.context().to_vec()].concat())
                    });
                    cx.eq("io.into_error_pipeline", &got, &with_ctx, cc);
                }
            },
            _ => {
                let got = quiet(|| io.run());
                cx.eq("io.run", &got.map_err(|p| if p.injected.is_some() { -1 } else { seen(&p.msg) }), &want.map_err(|e| e.seen()), cc);
            },
        }
        cx.eq("io.effects", &w.log.take(), &m.log, cc);
        cx.eq("io.world", &w.n.load(Ordering::SeqCst), &m.n, cc);
    }
}
/// running many at once keeps every value or every failure, in order, and runs each once
fn lists(cx: &mut Ctx, r: &mut Rng) {
    let mut tag = 0;
    let n = if r.chance(1, 6) { r.len_tail(30) } else { r.below(6) };
    let mut ps: Vec<P> = (0..n).map(|_| { let d = r.below(3); gen_p(r, d, &mut tag, true) }).collect();
    // which entries are clones of the one before them
    let same: Vec<bool> = (0..n).map(|i| i > 0 && r.chance(1, 4)).collect();
    for i in 0..n {
        if same[i] {
            ps[i] = ps[i - 1].clone();
        }
    }
    let w = World::default();
    let c = || format!("{ps:?}");
    cx.case("io_list", &ps, ps.len() > 1, c);
    let mut m = MW { n: 0, log: vec![] };
    let wants: Vec<Result<i64, Fail>> = ps.iter().map(|p| run(p, &mut m)).collect();
    let want: Result<Vec<i64>, Vec<i64>> = if wants.iter().all(|x| x.is_ok()) {
        Ok(wants.into_iter().map(|x| x.unwrap()).collect())
    } else {
        Err(wants.into_iter().filter_map(|x| x.err()).map(|e| e.seen()).collect())
    };
    let mut ios: Vec<IO<i64>> = vec![];
    for (p, same) in ps.iter().zip(&same) {
        ios.push(if *same { ios[ios.len() - 1].clone() } else { build(p, &w) });
    }
    w.log.take();
    if let Some(g) = cx.guard("io.sequence_composable", c, || IO::sequence_composable(mon::hinted(r, ios))) {
        cx.eq("io.sequence_composable", &g.map_err(|es| es.iter().map(|e| got_fail(e).0).collect::<Vec<_>>()), &want, c);
        cx.eq("io.sequence_composable.effects", &w.log.take(), &m.log, c);
    }
}
/// a long batch of effects that take different times: strictly one after another, in order, stopping at a failure
fn batch(cx: &mut Ctx, r: &mut Rng) {
    let n = 1 + r.len_upto(70);
    let fail = if r.chance(1, 3) { Some(r.below(n)) } else { None };
    let slow = r.chance(1, 3);
    let kinds: Vec<u64> = (0..n).map(|_| r.below(4) as u64).collect();
    let c = || format!("sequence of {n} effects, failing at {fail:?}, durations {kinds:?} slow {slow}");
    let w = World::default();
    let active = Arc::new(AtomicI64::new(0));
    let ios: Vec<IO<i64>> = (0..n)
        .map(|i| {
            if kinds[i] == 3 && fail != Some(i) {
                return IO::pure(i as i64);
            }
            let (w, k, active) = (w.clone(), kinds[i], active.clone());
            IO::new(move || {
                let a = active.fetch_add(1, Ordering::SeqCst);
                w.log.add((i as u32, a));
                if slow {
                    std::thread::sleep(std::time::Duration::from_micros(k * 40));
                }
                active.fetch_sub(1, Ordering::SeqCst);
                if fail == Some(i) {
                    inject(i as i64);
                }
                i as i64
            })
        })
        .collect();
    let io = IO::<i64>::sequence(mon::hinted(r, ios));
    cx.check("io.batch.lazy", w.log.take().is_empty(), c);
    let want: Vec<Ev> = (0..n).filter(|i| (kinds[*i] != 3 || fail == Some(*i)) && fail.is_none_or(|f| *i <= f)).map(|i| (i as u32, 0)).collect();
    for _ in 0..2 {
        let got = quiet(|| io.run());
        cx.eq("io.batch", &got.ok(), &(fail.is_none()).then(|| (0..n as i64).collect::<Vec<_>>()), c);
        cx.eq("io.batch.effects", &w.log.take(), &want, c);
    }
    cx.case("io_batch", &(n, fail, &kinds), n > 1, c);
}
/// a blocking delay lasts at least as long as asked, in every run, and takes no time before the first
fn delays(cx: &mut Ctx, r: &mut Rng) {
    let d = Duration::from_nanos(*r.pick(&[0, 1, 900, 40_000, 300_000, 999_999, 1_000_001, 1_700_000]));
    let a = r.small();
    let c = || format!("delay of {d:?} before {a}");
    let io = IO::delay_sync(d, a);
    let (cl, m) = (io.clone(), io.fmap(|x| x.wrapping_add(1)));
    for (i, (io, want)) in [(&io, a), (&m, a.wrapping_add(1)), (&io, a), (&cl, a)].into_iter().enumerate() {
        let t = std::time::Instant::now();
        let Some(g) = cx.guard("io.delay", c, || io.run()) else { return };
        let took = t.elapsed();
        cx.eq("io.delay", &g, &want, c);
        cx.check("io.delay.time", took >= d, || format!("run {i} took {took:?}: {}", c()));
    }
    cx.case("io_delay", &(d, a), true, c);
}
fn long(cx: &mut Ctx, r: &mut Rng) {
    let n = 50 + r.below(300) as i64;
    let w = World::default();
    let c = || format!("chain of {n} steps");
    let mut io = IO::pure(0);
    for i in 0..n {
        let w = w.clone();
        io = io.bind(move |a| {
            let w = w.clone();
            IO::new(move || {
                w.log.add((i as u32, a));
                a + i
            })
        });
    }
    let mut want = vec![];
    let mut a = 0;
    for i in 0..n {
        want.push((i as u32, a));
        a += i;
    }
    for _ in 0..2 {
        if let Some(g) = cx.guard("io.long", c, || io.run()) {
            cx.eq("io.long", &g, &a, c);
            cx.eq("io.long.effects", &w.log.take(), &want, c);
        }
    }
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng, i: usize) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let n = if i % 2 == 0 { few } else { n };
    let bad = [1, 3, 40, 1001][(i % 4) ^ (i / 4 & 1)];
    let c = || format!("{n} descriptions, every {bad}th failing (1: none)");
    cx.case("wide", &(n, bad), true, c);
    let w = World::default();
    let mk = |i: usize, fails: bool| {
        let w = w.clone();
        if i % 5 == 4 && !(fails && i % bad == 0) {
            return IO::pure(i as i64);
        }
        IO::new(move || {
            w.log.add((i as u32, 0));
            if fails && i % bad == 0 {
                raise(Fail::Msg(format!("boom {i}")))
            }
            i as i64
        })
    };
    let io = IO::sequence((0..n).map(|i| mk(i, false)));
    cx.check("wide.lazy", w.log.take().is_empty(), c);
    cx.check("wide.sequence", io.run() == (0..n as i64).collect::<Vec<_>>(), c);
    cx.check("wide.sequence.effects", w.log.take() == (0..n as u32).filter(|i| i % 5 != 4).map(|i| (i, 0)).collect::<Vec<_>>(), c);
    let fails = bad > 1;
    let Some(got) = cx.guard("wide.composable", c, || IO::sequence_composable((0..n).map(|i| mk(i, fails)))) else { return };
    match got {
        Ok(v) => cx.check("wide.composable", !fails && v == (0..n as i64).collect::<Vec<_>>(), c),
        Err(es) => cx.check("wide.composable", fails && es.iter().map(|e| got_fail(e).0).collect::<Vec<_>>() == (0..n).filter(|i| i % bad == 0).map(|i| seen(&format!("boom {i}"))).collect::<Vec<_>>(), c),
    };
    cx.check("wide.composable.effects", w.log.take() == (0..n).filter(|i| i % 5 != 4 || (fails && i % bad == 0)).map(|i| (i as u32, 0)).collect::<Vec<_>>(), c);
}
