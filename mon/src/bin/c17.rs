use mon::views::*;
use mon::*;
use rustica::datatypes::id::Id;
use rustica::datatypes::state::{State, get, modify, put};
use rustica::error::{ComposableError, ComposableResult};
use rustica::transformers::{MonadTransformer, StateT};
use std::sync::Arc;

type S = Vec<i64>;
type Ev = (u32, i64);
/// a program over the state; every user function logs (tag, what it was given)
#[derive(Clone, Debug, Hash)]
enum P {
    Pure(i64),
    Get(u32, Fun),
    Put(i64, i64),
    Modify(u32, Fun),
    New(u32, Fun),
    Fmap(Box<P>, u32, Fun),
    Bind(Box<P>, u32, Fun, Vec<P>),
    Apply(Box<P>, Box<P>, u32, Fun),
    Twice(Box<P>, u32, usize),
    ViaT(Box<P>),
    FromT(u32, Fun),
}
fn step(f: Fun, s: &S) -> S {
    let mut t = s.clone();
    t.push(f.ap(s.last().copied().unwrap_or(7)));
    if t.len() > 6 {
        t.remove(0);
    }
    t
}
fn h(s: &S) -> i64 {
    (hash_of(s) % 100_003) as i64
}
fn gen_p(r: &mut Rng, depth: usize, tag: &mut u32) -> P {
    *tag += 1;
    let t = *tag;
    let f = Fun::gen_(r);
    if depth == 0 || r.chance(1, 6) {
        return match r.below(6) {
            0 => P::Pure(r.small()),
            1 => P::Get(t, f),
            2 => P::Put(r.small(), r.small()),
            3 => P::Modify(t, f),
            4 => P::FromT(t, f),
            _ => P::New(t, f),
        };
    }
    let mut sub = |r: &mut Rng| Box::new(gen_p(r, depth - 1, tag));
    match r.below(9) {
        0 | 1 => P::Fmap(sub(r), t, f),
        2..=4 => {
            let p = sub(r);
            let n = 1 + r.below(2);
            P::Bind(p, t, f, (0..n).map(|_| *sub(r)).collect())
        },
        5 | 6 => P::Apply(sub(r), sub(r), t, f),
        7 => P::Twice(sub(r), t, r.below(3)),
        _ => P::ViaT(sub(r)),
    }
}
/// a long run of small steps, nested to the left, to the right or both
fn long_p(r: &mut Rng, tag: &mut u32) -> P {
    let (n, right) = (10 + r.below(180), r.below(3));
    let mut p = gen_p(r, 1, tag);
    for _ in 0..n {
        *tag += 1;
        let (t, f) = (*tag, Fun::gen_(r));
        p = match r.below(10) {
            0 => P::Fmap(Box::new(p), t, f),
            1 => P::Apply(Box::new(p), Box::new(gen_p(r, 0, tag)), t, f),
            2 => P::Apply(Box::new(gen_p(r, 0, tag)), Box::new(p), t, f),
            3 => P::ViaT(Box::new(p)),
            _ if right == 0 || right == 1 && r.chance(1, 2) => P::Bind(Box::new(gen_p(r, 0, tag)), t, f, vec![p]),
            _ => P::Bind(Box::new(p), t, f, vec![gen_p(r, 0, tag)]),
        };
    }
    p
}
fn build(p: &P, log: &SLog<Ev>) -> State<S, i64> {
    let log = log.clone();
    match p.clone() {
        P::Pure(a) => State::pure(a),
        P::Get(t, f) => get::<S>().fmap(move |s| {
            log.add((t, h(&s)));
            f.ap(h(&s))
        }),
        P::Put(a, b) => put(vec![a]).fmap(move |()| b),
        P::Modify(t, f) => modify(move |s: S| {
            log.add((t, h(&s)));
            step(f, &s)
        })
        .fmap(|()| 3),
        P::New(t, f) => State::new(move |s: S| {
            log.add((t, h(&s)));
            (f.ap(h(&s)), step(f, &s))
        }),
        P::FromT(t, f) => State::from(StateT::new(move |s: S| {
            log.add((t, h(&s)));
            Id::new((f.ap(h(&s)), step(f, &s)))
        })),
        P::Fmap(p, t, f) => build(&p, &log).fmap(move |a| {
            log.add((t, a));
            f.ap(a)
        }),
        P::Bind(p, t, f, ks) => build(&p, &log).bind(move |a| {
            log.add((t, a));
            let l = log.clone();
            build(&ks[f.small(a, ks.len() as u64) as usize], &l).fmap(move |b| f.ap2(a, b))
        }),
        P::Apply(a, b, t, f) => {
            // the function part is stateful, too: it goes first
            let l2 = log.clone();
            let fs = build(&a, &log).fmap(move |x| {
                let l = l2.clone();
                move |y: i64| {
                    l.add((t, y));
                    f.ap2(x, y)
                }
            });
            fs.apply(build(&b, &log))
        },
        P::Twice(p, t, how) => {
            let s = build(&p, &log);
            let s2 = s.clone();
            match how {
                1 => {
                    return s.bind(move |a| {
                        log.add((t, a));
                        s2.clone()
                    });
                },
                2 => {
                    let fs = s.fmap(move |a| {
                        log.add((t, a));
                        move |b: i64| a.wrapping_mul(31).wrapping_add(b)
                    });
                    return fs.apply(s2);
                },
                _ => (),
            }
            s.bind(move |a| {
                log.add((t, a));
                s2.clone().fmap(move |b| a.wrapping_mul(31).wrapping_add(b))
            })
        },
        P::ViaT(p) => StateT::<S, Id<(S, i64)>, i64>::from_state(build(&p, &log)).to_state(),
    }
}
fn run(p: &P, s: &mut S, log: &mut Vec<Ev>) -> i64 {
    match p {
        P::Pure(a) => *a,
        P::Get(t, f) => {
            log.push((*t, h(s)));
            f.ap(h(s))
        },
        P::Put(a, b) => {
            *s = vec![*a];
            *b
        },
        P::Modify(t, f) => {
            log.push((*t, h(s)));
            *s = step(*f, s);
            3
        },
        P::New(t, f) | P::FromT(t, f) => {
            log.push((*t, h(s)));
            let v = f.ap(h(s));
            *s = step(*f, s);
            v
        },
        P::Fmap(p, t, f) => {
            let a = run(p, s, log);
            log.push((*t, a));
            f.ap(a)
        },
        P::Bind(p, t, f, ks) => {
            let a = run(p, s, log);
            log.push((*t, a));
            let b = run(&ks[f.small(a, ks.len() as u64) as usize], s, log);
            f.ap2(a, b)
        },
        P::Apply(a, b, t, f) => {
            let x = run(a, s, log);
            let y = run(b, s, log);
            log.push((*t, y));
            f.ap2(x, y)
        },
        P::Twice(p, t, how) => {
            let a = run(p, s, log);
            log.push((*t, a));
            let b = run(p, s, log);
            if *how == 1 {
                return b;
            }
            a.wrapping_mul(31).wrapping_add(b)
        },
        P::ViaT(p) => run(p, s, log),
    }
}

// ---------------------------------------------------------------- transformer
#[derive(Clone, Debug, Hash)]
enum T {
    Pure(i64),
    RawPure(i64, u32, Fun), // StateT::Pure(a) mapped, then bound into something runnable
    New(u32, Fun),
    Raw(M<(i64, i64)>),  // StateT::LiftM
    Lift(M<(i64, i64)>), // MonadTransformer::lift
    Get,
    Put(i64),
    Modify(u32, Fun),
    Fmap(Box<T>, u32, Fun),
    Bind(Box<T>, u32, Fun, Vec<T>),
    Combine(Box<T>, Box<T>, u32, Fun), // both sides plain effects
    Apply(Box<T>, Box<T>, u32, Fun),
    Join(Box<T>, Fun),
    Twice(Box<T>, u32),
}
type SA = (i64, i64);
trait Base: Clone + Send + Sync + 'static + PartialEq + std::fmt::Debug {
    const KB: K;
    fn mk_(m: &M<SA>) -> Self;
    fn view_(&self) -> M<SA>;
    fn map_(self, f: &dyn Fn(SA) -> SA) -> Self {
        Self::mk_(&self.view_().map(|x| f(*x)))
    }
    fn bind_(self, f: &dyn Fn(SA) -> Self) -> Self {
        Self::mk_(&self.view_().bind(Self::KB, |x| f(*x).view_()))
    }
    fn lift2_(self, o: Self, f: &dyn Fn(SA, SA) -> SA) -> Self {
        Self::mk_(&self.view_().lift2(Self::KB, &o.view_(), |x, y| f(*x, *y)))
    }
    fn lift_t(_m: Self) -> Option<StateT<i64, Self, i64>> {
        None
    }
}
macro_rules! base {
    ($($t:ty, $lift:expr);*) => { $(impl Base for $t {
        const KB: K = <$t as Sub<SA>>::K;
        fn mk_(m: &M<SA>) -> Self { Sub::mk(m) }
        fn view_(&self) -> M<SA> { self.view() }
        fn lift_t(m: Self) -> Option<StateT<i64, Self, i64>> { $lift(m) }
    })* };
}
base!(Option<SA>, |m| Some(StateT::lift(m)); Result<SA, String>, |m| Some(StateT::lift(m)); Vec<SA>, |_| None; Id<SA>, |m| Some(StateT::lift(m)));

fn base_of(k: K, f: Fun, s: i64) -> M<SA> {
    let mut m = M::one((f.ap(s), f.ap2(s, 5)));
    match k {
        K::Opt if f.small(s, 4) == 0 => m.items.clear(),
        K::Res if f.small(s, 4) == 0 => {
            m.items.clear();
            m.errs.push(format!("fail{s}"));
        },
        K::List => m.items = (0..[1, 2, 0, 1][f.small(s, 4) as usize]).map(|i| (f.ap(s) + i, f.ap2(s, i))).collect(),
        _ => {},
    }
    m
}
fn gen_t(r: &mut Rng, k: K, depth: usize, tag: &mut u32) -> T {
    *tag += 1;
    let t = *tag;
    let f = Fun::gen_(r);
    let mut m = gen_m(k, r, |r| (r.small(), r.small()));
    m.items.truncate(2);
    if depth == 0 || r.chance(1, 6) {
        return match r.below(8) {
            0 => T::Pure(r.small()),
            1 => T::RawPure(r.small(), t, f),
            2 => T::Raw(m),
            3 if k != K::List => T::Lift(m),
            4 => T::Get,
            5 => T::Put(r.small()),
            6 => T::Modify(t, f),
            _ => T::New(t, f),
        };
    }
    let mut sub = |r: &mut Rng| Box::new(gen_t(r, k, depth - 1, tag));
    match r.below(10) {
        0 | 1 => T::Fmap(sub(r), t, f),
        2..=5 => {
            let p = sub(r);
            let n = 1 + r.below(2);
            T::Bind(p, t, f, (0..n).map(|_| *sub(r)).collect())
        },
        6 => T::Combine(sub(r), sub(r), t, f),
        7 => T::Apply(sub(r), sub(r), t, f),
        8 => T::Join(sub(r), f),
        _ => T::Twice(sub(r), t),
    }
}
fn long_t(r: &mut Rng, k: K, tag: &mut u32) -> T {
    let (n, right) = (10 + r.below(90), r.below(3));
    let mut p = gen_t(r, k, 1, tag);
    for _ in 0..n {
        *tag += 1;
        let (t, f) = (*tag, Fun::gen_(r));
        p = match r.below(10) {
            0 | 1 => T::Fmap(Box::new(p), t, f),
            _ if right == 0 || right == 1 && r.chance(1, 2) => T::Bind(Box::new(gen_t(r, k, 0, tag)), t, f, vec![p]),
            _ => T::Bind(Box::new(p), t, f, vec![gen_t(r, k, 0, tag)]),
        };
    }
    p
}
type ST<B> = StateT<i64, B, i64>;
/// the raw LiftM variant cannot be combined with an effect: make it one
fn eff<B: Base>(s: ST<B>) -> ST<B> {
    match s {
        StateT::Effect(_) => s,
        other => StateT::new(move |st| other.run_state(st)),
    }
}
fn build_t<B: Base>(p: &T, log: &SLog<Ev>) -> ST<B> {
    let log = log.clone();
    let mp = |m: B, f: Box<dyn Fn(SA) -> SA + Send + Sync>| m.map_(&*f);
    let bd = |m: B, f: Box<dyn Fn(SA) -> B + Send + Sync>| m.bind_(&*f);
    let one = |x: SA| B::mk_(&M::one(x));
    match p.clone() {
        T::Pure(a) => StateT::pure(a, one),
        T::RawPure(a, t, f) => {
            let l2 = log.clone();
            let s: ST<B> = StateT::Pure(a);
            let s: ST<B> = s.fmap_with(
                move |x| {
                    l2.add((t, x));
                    f.ap(x)
                },
                mp,
            );
            // values without an effect stay so through combining, copying and flattening
            let s: ST<B> = match t % 4 {
                1 => s.combine_with(&ST::<B>::Pure(3), move |a, b| f.ap2(a, b), |m, _, _| m),
                2 => StateT::<i64, B, i64>::clone(&s).clone(),
                _ => s.clone(),
            };
            s.bind_with(
                move |x| {
                    log.add((t, x));
                    StateT::new(move |s| B::mk_(&M::one((s, f.ap(x)))))
                },
                bd,
            )
        },
        T::New(t, f) => StateT::new(move |s| {
            log.add((t, s));
            B::mk_(&base_of(B::KB, f, s))
        }),
        T::Raw(m) => StateT::LiftM(B::mk_(&m)),
        T::Lift(m) => B::lift_t(B::mk_(&m)).unwrap(),
        T::Get => ST::<B>::get(one),
        T::Put(v) => ST::<B>::put(v, one),
        T::Modify(t, f) => ST::<B>::modify(
            move |s| {
                log.add((t, s));
                f.ap(s)
            },
            move |(s, ())| B::mk_(&M::one((s, 11))),
        )
        .fmap_with(|()| 12, |m: B, f: Box<dyn Fn((i64, ())) -> SA + Send + Sync>| m.map_(&|(s, _)| f((s, ())))),
        T::Fmap(p, t, f) => build_t::<B>(&p, &log).fmap_with(
            move |a| {
                log.add((t, a));
                f.ap(a)
            },
            mp,
        ),
        T::Bind(p, t, f, ks) => build_t::<B>(&p, &log).bind_with(
            move |a| {
                log.add((t, a));
                let s = build_t::<B>(&ks[f.small(a, ks.len() as u64) as usize], &log);
                s.fmap_with(move |b| f.ap2(a, b), |m: B, f: Box<dyn Fn(SA) -> SA + Send + Sync>| m.map_(&*f))
            },
            bd,
        ),
        T::Combine(a, b, t, f) => eff(build_t::<B>(&a, &log)).combine_with(
            &eff(build_t::<B>(&b, &log)),
            move |x, y| {
                log.add((t, y));
                f.ap2(x, y)
            },
            |a: B, b: B, f: Box<dyn Fn(SA, SA) -> SA + Send + Sync>| a.lift2_(b, &*f),
        ),
        T::Apply(a, b, t, f) => build_t::<B>(&a, &log).apply(build_t::<B>(&b, &log), move |x: B, y: B| {
            x.lift2_(y, &|(_, a), (s, b)| {
                log.add((t, b));
                (s, f.ap2(a, b))
            })
        }),
        T::Join(p, f) => build_t::<B>(&p, &log).join(move |m: B| m.map_(&|(s, a)| (f.ap2(s, a), a))),
        T::Twice(p, t) => {
            let s = build_t::<B>(&p, &log);
            let s2 = s.clone();
            s.bind_with(
                move |a| {
                    log.add((t, a));
                    s2.clone()
                },
                bd,
            )
        },
    }
}
/// the state a raw lifted value ignores is what the model ignores too
fn run_t(p: &T, k: K, s: i64, log: &mut Vec<Ev>) -> M<SA> {
    match p {
        T::Pure(a) => M::one((s, *a)),
        T::RawPure(a, t, f) => {
            log.push((*t, *a));
            let y = if t % 4 == 1 { f.ap2(f.ap(*a), 3) } else { f.ap(*a) };
            log.push((*t, y));
            M::one((s, f.ap(y)))
        },
        T::New(t, f) => {
            log.push((*t, s));
            base_of(k, *f, s)
        },
        T::Raw(m) | T::Lift(m) => m.clone(),
        T::Get => M::one((s, s)),
        T::Put(v) => M::one((*v, s)),
        T::Modify(t, f) => {
            log.push((*t, s));
            M::one((f.ap(s), 12))
        },
        T::Fmap(p, t, f) => {
            let m = run_t(p, k, s, log);
            m.map(|(s, a)| {
                log.push((*t, *a));
                (*s, f.ap(*a))
            })
        },
        T::Bind(p, t, f, ks) => {
            let m = run_t(p, k, s, log);
            m.bind(k, |(s, a)| {
                log.push((*t, *a));
                run_t(&ks[f.small(*a, ks.len() as u64) as usize], k, *s, log).map(|(s, b)| (*s, f.ap2(*a, *b)))
            })
        },
        T::Combine(a, b, t, f) | T::Apply(a, b, t, f) => {
            let x = run_t(a, k, s, log);
            let y = run_t(b, k, s, log);
            x.lift2(k, &y, |(_, a), (s, b)| {
                log.push((*t, *b));
                (*s, f.ap2(*a, *b))
            })
        },
        T::Join(p, f) => run_t(p, k, s, log).map(|(s, a)| (f.ap2(*s, *a), *a)),
        T::Twice(p, t) => {
            let m = run_t(p, k, s, log);
            m.bind(k, |(s, a)| {
                log.push((*t, *a));
                run_t(p, k, *s, log)
            })
        },
    }
}

fn main() {
    main_with("C17", |cx| {
        cx.rule = "a case is a random program (nested pure/get/put/modify/new/fmap/bind/apply/reuse/conversion) and initial states; each is run repeatedly, from clones and from threads, and its value, \
                   final state and the log of every user function call are compared with a straight-line interpreter. Distinct by (kind, program)."
            .into();
        mon::shapes::rounds(cx);
        let mut r = cx.rng.split();
        mon::worn::state(cx, &mut r);
        cx.require("worn_runs", 4_000);
        let n = cx.n(120_000, 6_000_000);
        cx.par(8, |cx, _| {
            for i in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                plain(cx, &mut r, i);
                trans::<Option<SA>>(cx, &mut r, "Option");
                trans::<Result<SA, String>>(cx, &mut r, "Result");
                trans::<Vec<SA>>(cx, &mut r, "Vec");
                trans::<Id<SA>>(cx, &mut r, "Id");
                res_t(cx, &mut r);
                if i % 16 == 0 {
                    mon::knots::state(cx, &mut r);
                }
                if i % 2 == 0 {
                    raw_pair::<Option<SA>>(cx, &mut r, "Option");
                    raw_pair::<Result<SA, String>>(cx, &mut r, "Result");
                    raw_pair::<Vec<SA>>(cx, &mut r, "Vec");
                    raw_pair::<Id<SA>>(cx, &mut r, "Id");
                }
            }
        });
        cx.require("raw_pair.ok", 500);
        cx.require("bind_after_change", 500);
        cx.require("failed_runs", 300);
        cx.require("threaded", 20);
        cx.require("inside_itself", 500);
    });
}
fn ctx_err(e: &ComposableError<String>) -> (String, Vec<String>) {
    (e.core_error().clone(), e.context().to_vec())
}
fn plain(cx: &mut Ctx, r: &mut Rng, i: usize) {
    let mut tag = 0;
    let d = 1 + r.below(4);
    let p = if r.chance(1, 60) { long_p(r, &mut tag) } else { gen_p(r, d, &mut tag) };
    let log = SLog::new();
    let c = || format!("{p:?}");
    cx.case("state", &p, tag > 2, c);
    let Some(st) = cx.guard("state.build", c, || build(&p, &log)) else { return };
    cx.check("state.build.effects", log.take().is_empty(), || format!("functions ran before the program was run: {}", c()));
    let cl = st.clone();
    let inits: Vec<S> = (0..2).map(|_| r.vec_tail(4)).collect();
    for (j, s0) in inits.iter().chain(inits.first()).enumerate() {
        let (mut s, mut l) = (s0.clone(), vec![]);
        let v = run(&p, &mut s, &mut l);
        if l.len() > 2 && s != *s0 {
            cx.count("bind_after_change", 1);
        }
        let which = if j == 1 { &cl } else { &st };
        let cc = || format!("initial {s0:?} run {j} of {}", c());
        match j {
            0 | 1 => {
                if let Some(g) = cx.guard("state.run_state", cc, || which.run_state(s0.clone())) {
                    cx.eq("state.run_state", &g, &(v, s.clone()), cc);
                    cx.eq("state.run_state.calls", &log.take(), &l, cc);
                }
            },
            _ => {
                if let Some((a, b, c2)) = cx.guard("state.eval_exec", cc, || {
                    (which.eval_state(s0.clone()), which.exec_state(s0.clone()), which.exec_pure(s0.clone()))
                }) {
                    cx.eq("state.eval_state", &a, &v, cc);
                    cx.eq("state.exec_state", &b, &s, cc);
                    cx.eq("state.exec_pure", &c2, &s, cc);
                    let want: Vec<Ev> = [&l[..], &l[..], &l[..]].concat();
                    cx.eq("state.rerun.calls", &log.take(), &want, cc);
                }
            },
        }
    }
    // fallible programs
    let s0 = r.vec_small(3);
    let (mut s, mut l) = (s0.clone(), vec![]);
    let v = run(&p, &mut s, &mut l);
    let f = Fun::gen_(r);
    let to = move |a: i64| if f.pred(a) { Ok(a) } else { Err(format!("bad{a}")) };
    let want = to(v);
    let ms = r.string();
    let fs = st.clone().fmap(to);
    let cc = || format!("fallible, context {ms:?}, from {s0:?}: {}", c());
    if let Some((a, b, c1, d1, e1, f1)) = cx.guard("state.try", cc, || {
        (
            fs.try_run_state(s0.clone()),
            fs.try_run_state_with_context(s0.clone(), ms.clone()),
            fs.try_eval_state(s0.clone()),
            fs.try_eval_state_with_context(s0.clone(), ms.clone()),
            fs.try_exec_state(s0.clone()),
            fs.try_exec_state_with_context(s0.clone(), ms.clone()),
        )
    }) {
        let w0: Result<i64, (String, Vec<String>)> = want.clone().map_err(|e| (e, vec![]));
        let w1: Result<i64, (String, Vec<String>)> = want.clone().map_err(|e| (e, vec![ms.clone()]));
        let vw = |x: ComposableResult<i64, String>| x.map_err(|e| ctx_err(&e));
        let vs = |x: ComposableResult<S, String>| x.map_err(|e| ctx_err(&e));
        cx.eq("state.try_run_state", &(vw(a.0), a.1), &(w0.clone(), s.clone()), cc);
        cx.eq("state.try_run_state_with_context", &(vw(b.0), b.1), &(w1.clone(), s.clone()), cc);
        cx.eq("state.try_eval_state", &vw(c1), &w0, cc);
        cx.eq("state.try_eval_state_with_context", &vw(d1), &w1, cc);
        cx.eq("state.try_exec_state", &vs(e1), &w0.clone().map(|_| s.clone()), cc);
        cx.eq("state.try_exec_state_with_context", &vs(f1), &w1.map(|_| s.clone()), cc);
    }
    log.take();
    // laws on runs
    let k1 = {
        let (p, log) = (p.clone(), log.clone());
        move |a: i64| build(&p, &log).fmap(move |b| f.ap2(a, b))
    };
    let a = r.small();
    let (k2, k3) = (k1.clone(), k1.clone());
    if let Some((x, y)) = cx.guard("state.left_id", c, || (State::<S, i64>::pure(a).bind(k2).run_state(s0.clone()), k3(a).run_state(s0.clone()))) {
        cx.eq("state.left_id", &x, &y, c);
    }
    if let Some(x) = cx.guard("state.right_id", c, || st.clone().bind(State::pure).run_state(s0.clone())) {
        cx.eq("state.right_id", &x, &(v, s.clone()), c);
    }
    // the same description run from several threads at once
    if i % 60 == 0 {
        cx.count("threaded", 1);
        let outs: Vec<(S, (i64, S))> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4)
                .map(|j| {
                    let st = &st;
                    sc.spawn(move || {
                        let s0 = vec![j, j + 1];
                        let mut out = vec![];
                        for _ in 0..5 {
                            out.push((s0.clone(), st.run_state(s0.clone())));
                        }
                        out
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        for (s0, got) in outs {
            let mut s = s0.clone();
            let v = run(&p, &mut s, &mut vec![]);
            cx.eq("state.threads", &got, &(v, s), || format!("from {s0:?} while other threads run it too: {}", c()));
        }
    }
}
fn trans<B: Base>(cx: &mut Ctx, r: &mut Rng, ty: &str) {
    let k = B::KB;
    let mut tag = 0;
    let d = 1 + r.below(4);
    let p = if k != K::List && r.chance(1, 100) { long_t(r, k, &mut tag) } else { gen_t(r, k, d, &mut tag) };
    let log = SLog::new();
    let c = || format!("StateT over {ty}: {p:?}");
    cx.case(ty, &p, tag > 2, c);
    let Some(st) = cx.guard(&format!("state_t.{ty}.build"), c, || build_t::<B>(&p, &log)) else { return };
    log.take(); // a raw Pure value is mapped when built
    for (j, s0) in [r.small(), r.small()].into_iter().enumerate() {
        let mut l = vec![];
        let want = run_t(&p, k, s0, &mut l);
        if !want.ok() {
            cx.count("failed_runs", 1);
        }
        let cc = || format!("from {s0}, {}", c());
        let st2 = st.clone();
        if let Some(g) = cx.guard(&format!("state_t.{ty}.run"), cc, || if j == 0 { st.run_state(s0) } else { st2.exec_state(s0, |m| m) }) {
            let lg = log.take();
            cx.eq(&format!("state_t.{ty}.run"), &g.view_(), &want, cc);
            // raw Pure or lifted heads run mapped functions while building: compare only programs without them
            if !has_raw(&p) {
                cx.eq(&format!("state_t.{ty}.calls"), &lg, &l, cc);
            }
        }
    }
    if k == K::Id {
        // through the plain State
        let s0 = r.small();
        let want = run_t(&p, k, s0, &mut vec![]).items[0];
        let log2 = SLog::new();
        if let Some((g, g2)) = cx.guard("state_t.to_state", c, || {
            let s = build_t::<Id<SA>>(&p, &log2).to_state();
            let back = StateT::<i64, Id<SA>, i64>::from_state(s.clone());
            (s.run_state(s0), back.run_state(s0).into_inner())
        }) {
            cx.eq("state_t.to_state", &g, &(want.1, want.0), || format!("from {s0}, {}", c()));
            cx.eq("state_t.from_state", &g2, &want, || format!("from {s0}, {}", c()));
        }
    }
}
/// two lifted base values combined: both values, in order, whatever the state (whose copy is kept is not documented)
fn raw_pair<B: Base>(cx: &mut Ctx, r: &mut Rng, ty: &str) {
    let k = B::KB;
    let f = Fun::gen_(r);
    let mut g = |r: &mut Rng| {
        let mut m = gen_m(k, r, |r| (r.small(), r.small()));
        m.items.truncate(3);
        m
    };
    let (m1, m2, m3) = (g(r), g(r), g(r));
    let s0 = r.small();
    let c = || format!("StateT over {ty}: LiftM {m1:?} with LiftM {m2:?} from {s0}, then with {m3:?}");
    cx.case("raw_pair", &(ty, &m1, &m2, &m3, f), m1.ok() && m2.ok(), c);
    cx.count("raw_pair.ok", (m1.ok() && m2.ok()) as u64);
    let go = |a: &ST<B>, b: &ST<B>| a.combine_with(b, move |x, y| f.ap2(x, y), |x: B, y: B, h| x.lift2_(y, &|p, q| h(p, q)));
    let (l1, l2, l3) = (ST::<B>::LiftM(B::mk_(&m1)), ST::<B>::LiftM(B::mk_(&m2)), ST::<B>::LiftM(B::mk_(&m3)));
    let got = cx.guard(&format!("state_t.{ty}.combine_lifted"), c, || {
        let p = go(&l1, &l2);
        let q = go(&p, &l3);
        [p.run_state(s0), p.clone().run_state(s0 + 1), q.run_state(s0), go(&l1, &l1).run_state(s0)]
    });
    let vals = |m: &M<SA>| m.map(|x| x.1);
    if let Some([p, p2, q, t]) = got {
        let w = vals(&m1).lift2(k, &vals(&m2), |x, y| f.ap2(*x, *y));
        cx.eq(&format!("state_t.{ty}.combine_lifted"), &vals(&p.view_()), &w, c);
        cx.check(&format!("state_t.{ty}.combine_lifted_again"), p2 == p, c);
        cx.eq(&format!("state_t.{ty}.combine_lifted_three"), &vals(&q.view_()), &w.lift2(k, &vals(&m3), |x, y| f.ap2(*x, *y)), c);
        cx.eq(&format!("state_t.{ty}.combine_lifted_self"), &vals(&t.view_()), &vals(&m1).lift2(k, &vals(&m1), |x, y| f.ap2(*x, *y)), c);
        let st = |i: usize| m1.lift2(k, &m2, |x, y| [x, y][i].0);
        let gs = p.view_().map(|x| x.0);
        cx.check(&format!("state_t.{ty}.combine_lifted_state"), gs == st(0) || gs == st(1), || format!("got {gs:?}, {}", c()));
    }
}
fn has_raw(p: &T) -> bool {
    match p {
        T::RawPure(..) | T::Raw(_) => true,
        T::Fmap(p, ..) | T::Join(p, _) | T::Twice(p, _) => has_raw(p),
        T::Bind(p, _, _, ks) => has_raw(p) || ks.iter().any(has_raw),
        T::Combine(a, b, ..) | T::Apply(a, b, ..) => has_raw(a) || has_raw(b),
        _ => false,
    }
}
/// try_* and map_error of the Result transformer
fn res_t(cx: &mut Ctx, r: &mut Rng) {
    let mut tag = 0;
    let d = r.below(3);
    let p = gen_t(r, K::Res, d, &mut tag);
    let log = SLog::new();
    let st = build_t::<Result<SA, String>>(&p, &log);
    let s0 = r.small();
    let ms = r.string();
    let w = run_t(&p, K::Res, s0, &mut vec![]);
    let want: Result<SA, String> = if w.ok() { Ok(w.items[0]) } else { Err(w.errs[0].clone()) };
    let c = || format!("from {s0} context {ms:?}: {p:?}");
    let mlog = SLog::new();
    let ml = mlog.clone();
    if let Some((a, b, c1, d1, e1, m)) = cx.guard("state_t.try", c, || {
        (
            st.try_run_state(s0),
            st.try_run_state_with_context(s0, ms.clone()),
            st.try_eval_state(s0),
            st.try_eval_state_with_context(s0, ms.clone()),
            st.try_exec_state(s0),
            {
                let mp = st.map_error(move |e: String| {
                    ml.add(e.clone());
                    e.len()
                });
                mlog.take();
                let got = mp.run_state(s0);
                // a value lifted raw is mapped when the transformer is built, an effect when it is run
                (got, mlog.take())
            },
        )
    }) {
        let w0 = want.clone().map_err(|e| (e, Vec::<String>::new()));
        let w1 = want.clone().map_err(|e| (e, vec![ms.clone()]));
        cx.eq("state_t.try_run_state", &a.map_err(|e| ctx_err(&e)), &w0, c);
        cx.eq("state_t.try_run_state_with_context", &b.map_err(|e| ctx_err(&e)), &w1, c);
        cx.eq("state_t.try_eval_state", &c1.map_err(|e| ctx_err(&e)), &w0.clone().map(|x| x.1), c);
        cx.eq("state_t.try_eval_state_with_context", &d1.map_err(|e| ctx_err(&e)), &w1.map(|x| x.1), c);
        cx.eq("state_t.try_exec_state", &e1.map_err(|e| ctx_err(&e)), &w0.map(|x| x.0), c);
        cx.eq("state_t.map_error", &m.0, &want.clone().map_err(|e| e.len()), c);
        let times = m.1.len();
        cx.check("state_t.map_error.calls", if want.is_ok() { times == 0 } else { times <= 1 }, || format!("called {times} times, {}", c()));
    }
}
