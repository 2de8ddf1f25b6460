use mon::views::*;
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::error::ComposableError;
use rustica::traits::hkt::HKT;
use rustica::traits::monad::Monad;
use rustica::transformers::{MonadTransformer, ReaderT};
use std::sync::Arc;

type Ev = (u32, i64);
#[derive(Clone, Debug, Hash)]
enum P {
    New(u32, Fun),
    Ask,
    Asks(u32, Fun),
    AskTransform(u32, Fun),
    AskWith(u32, Fun),
    FromT(u32, Fun),
    Local(Box<P>, u32, Fun),
    Fmap(Box<P>, u32, Fun),
    Bind(Box<P>, u32, Fun, Vec<P>),
    Combine(Box<P>, Box<P>, u32, Fun),
    /// one reader value used twice: plainly and inside a local modification
    Shared(Box<P>, u32, Fun, bool),
}
fn gen_p(r: &mut Rng, depth: usize, tag: &mut u32) -> P {
    *tag += 1;
    let (t, f) = (*tag, Fun::gen_(r));
    if depth == 0 || r.chance(1, 7) {
        return match r.below(6) {
            0 => P::New(t, f),
            1 => P::Ask,
            2 => P::Asks(t, f),
            3 => P::AskTransform(t, f),
            4 => P::AskWith(t, f),
            _ => P::FromT(t, f),
        };
    }
    let mut sub = |r: &mut Rng| Box::new(gen_p(r, depth - 1, tag));
    match r.below(9) {
        0 | 1 => P::Local(sub(r), t, f),
        2 => P::Fmap(sub(r), t, f),
        3..=5 => {
            let p = sub(r);
            let n = 1 + r.below(2);
            P::Bind(p, t, f, (0..n).map(|_| *sub(r)).collect())
        },
        6 | 7 => P::Combine(sub(r), sub(r), t, f),
        _ => P::Shared(sub(r), t, f, r.chance(1, 2)),
    }
}
/// a long run of small steps, nested to the left, to the right or both
fn long_p(r: &mut Rng, tag: &mut u32) -> P {
    let (n, right) = (10 + r.below(180), r.below(3));
    let mut p = gen_p(r, 1, tag);
    for _ in 0..n {
        *tag += 1;
        let (t, f) = (*tag, Fun::gen_(r));
        p = match r.below(10) {
            0 => P::Fmap(Box::new(p), t, f),
            1 => P::Combine(Box::new(p), Box::new(gen_p(r, 0, tag)), t, f),
            2 => P::Combine(Box::new(gen_p(r, 0, tag)), Box::new(p), t, f),
            3 | 4 => P::Local(Box::new(p), t, f),
            _ if right == 0 || right == 1 && r.chance(1, 2) => P::Bind(Box::new(gen_p(r, 0, tag)), t, f, vec![p]),
            _ => P::Bind(Box::new(p), t, f, vec![gen_p(r, 0, tag)]),
        };
    }
    p
}
/// the environment carries a heap value so that a stale or shared one would be visible
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Env(Vec<i64>);
impl Env {
    fn h(&self) -> i64 {
        (hash_of(self) % 100_003) as i64
    }
    fn step(&self, f: Fun) -> Env {
        let mut v = self.0.clone();
        v.push(f.ap(v.last().copied().unwrap_or(3)));
        if v.len() > 5 {
            v.remove(0);
        }
        Env(v)
    }
}
impl From<Env> for i64 {
    fn from(e: Env) -> i64 {
        e.h()
    }
}
fn build(p: &P, log: &SLog<Ev>) -> Reader<Env, i64> {
    let log = log.clone();
    match p.clone() {
        P::New(t, f) => Reader::new(move |e: Env| {
            log.add((t, e.h()));
            f.ap(e.h())
        }),
        P::Ask => Reader::ask(),
        P::Asks(t, f) => Reader::asks(move |e: Env| {
            log.add((t, e.h()));
            f.ap(e.h())
        }),
        P::AskTransform(t, f) => Reader::ask_transform(move |e: Env| {
            log.add((t, e.h()));
            f.ap(e.h())
        }),
        P::AskWith(t, f) => {
            let l2 = log.clone();
            Reader::ask_with(
                move |e: &Env| {
                    log.add((t, e.h()));
                    e.h()
                },
                move |a: i64| {
                    l2.add((t, a));
                    Id::new(f.ap(a))
                },
            )
        },
        P::FromT(t, f) => Reader::from(ReaderT::new(move |e: Env| {
            log.add((t, e.h()));
            Id::new(f.ap(e.h()))
        })),
        P::Local(p, t, f) => build(&p, &log).local(move |e: Env| {
            log.add((t, e.h()));
            e.step(f)
        }),
        P::Fmap(p, t, f) => build(&p, &log).fmap(move |a| {
            log.add((t, a));
            f.ap(a)
        }),
        P::Bind(p, t, f, ks) => build(&p, &log).bind(move |a| {
            log.add((t, a));
            build(&ks[f.small(a, ks.len() as u64) as usize], &log).fmap(move |b| f.ap2(a, b))
        }),
        P::Combine(a, b, t, f) => build(&a, &log).combine(&build(&b, &log), move |x: i64, y: i64| {
            log.add((t, x));
            f.ap2(x, y)
        }),
        P::Shared(p, t, f, local_first) => {
            let s = build(&p, &log);
            let l = s.local(move |e: Env| {
                log.add((t, e.h()));
                e.step(f)
            });
            if local_first { l.combine(&s, move |x: i64, y: i64| f.ap2(x, y)) } else { s.combine(&l, move |x: i64, y: i64| f.ap2(x, y)) }
        },
    }
}
fn run(p: &P, e: &Env, log: &mut Vec<Ev>) -> i64 {
    match p {
        P::New(t, f) | P::Asks(t, f) | P::AskTransform(t, f) | P::FromT(t, f) => {
            log.push((*t, e.h()));
            f.ap(e.h())
        },
        P::Ask => e.h(),
        P::AskWith(t, f) => {
            log.push((*t, e.h()));
            log.push((*t, e.h()));
            f.ap(e.h())
        },
        P::Local(p, t, f) => {
            log.push((*t, e.h()));
            run(p, &e.step(*f), log)
        },
        P::Fmap(p, t, f) => {
            let a = run(p, e, log);
            log.push((*t, a));
            f.ap(a)
        },
        P::Bind(p, t, f, ks) => {
            let a = run(p, e, log);
            log.push((*t, a));
            let b = run(&ks[f.small(a, ks.len() as u64) as usize], e, log);
            f.ap2(a, b)
        },
        P::Combine(a, b, t, f) => {
            let x = run(a, e, log);
            let y = run(b, e, log);
            log.push((*t, x));
            f.ap2(x, y)
        },
        P::Shared(p, t, f, local_first) => {
            let loc = |log: &mut Vec<Ev>| {
                log.push((*t, e.h()));
                run(p, &e.step(*f), log)
            };
            if *local_first {
                let x = loc(log);
                f.ap2(x, run(p, e, log))
            } else {
                let x = run(p, e, log);
                f.ap2(x, loc(log))
            }
        },
    }
}

// ---------------------------------------------------------------- transformer
#[derive(Clone, Debug, Hash)]
enum T {
    Pure(i64),
    New(u32, Fun),
    Lift(M<i64>),
    Ask(u32),
    Asks(u32, Fun),
    AskWith(u32, Fun),
    AsksWith(u32, Fun),
    Local(Box<T>, u32, Fun),
    Fmap(Box<T>, u32, Fun, bool),
    Bind(Box<T>, u32, Fun, Vec<T>, bool),
    Combine(Box<T>, Box<T>, u32, Fun, u8),
    Shared(Box<T>, u32, Fun),
}
fn kl(k: K, f: Fun, x: i64) -> M<i64> {
    let v = f.ap(x);
    let mut m = M::one(v);
    let fail = f.small(x, 5) == 0;
    match k {
        K::Choice => m.items = (0..[1, 2, 0, 1, 3][f.small(x, 5) as usize]).map(|i| v + i).collect(),
        K::Writer => m.log = vec![format!("w{x}")],
        K::Id => {},
        K::Opt | K::Maybe if fail => m.items.clear(),
        _ if fail => {
            m.items.clear();
            m.errs = vec![format!("k{x}")];
        },
        _ => {},
    }
    m
}
fn gen_t(r: &mut Rng, k: K, depth: usize, tag: &mut u32) -> T {
    *tag += 1;
    let (t, f) = (*tag, Fun::gen_(r));
    if depth == 0 || r.chance(1, 7) {
        return match r.below(8) {
            0 => T::Pure(r.small()),
            1 | 2 => T::New(t, f),
            3 => {
                let mut m = gen_m(k, r, |r| r.small());
                m.items.truncate(3);
                T::Lift(m)
            },
            4 => T::Ask(t),
            5 => T::Asks(t, f),
            6 => T::AskWith(t, f),
            _ => T::AsksWith(t, f),
        };
    }
    let mut sub = |r: &mut Rng| Box::new(gen_t(r, k, depth - 1, tag));
    match r.below(10) {
        0 | 1 => T::Local(sub(r), t, f),
        2 | 3 => T::Fmap(sub(r), t, f, r.chance(1, 2)),
        4..=6 => {
            let p = sub(r);
            let n = 1 + r.below(2);
            T::Bind(p, t, f, (0..n).map(|_| *sub(r)).collect(), r.chance(1, 2))
        },
        7 | 8 => T::Combine(sub(r), sub(r), t, f, r.below(5) as u8),
        _ => T::Shared(sub(r), t, f),
    }
}
fn long_t(r: &mut Rng, k: K, tag: &mut u32) -> T {
    let (n, right) = (10 + r.below(90), r.below(3));
    let mut p = gen_t(r, k, 1, tag);
    for _ in 0..n {
        *tag += 1;
        let (t, f) = (*tag, Fun::gen_(r));
        p = match r.below(10) {
            0 => T::Fmap(Box::new(p), t, f, r.chance(1, 2)),
            1 => T::Combine(Box::new(p), Box::new(gen_t(r, k, 0, tag)), t, f, r.below(5) as u8),
            2 => T::Combine(Box::new(gen_t(r, k, 0, tag)), Box::new(p), t, f, r.below(5) as u8),
            3 | 4 => T::Local(Box::new(p), t, f),
            _ if right == 0 || right == 1 && r.chance(1, 2) => T::Bind(Box::new(gen_t(r, k, 0, tag)), t, f, vec![p], r.chance(1, 2)),
            _ => T::Bind(Box::new(p), t, f, vec![gen_t(r, k, 0, tag)], r.chance(1, 2)),
        };
    }
    p
}
trait B: Sub<i64> + Monad + HKT<Source = i64, Output<i64> = Self> + Clone + Send + Sync + 'static {}
impl<X: Sub<i64> + Monad + HKT<Source = i64, Output<i64> = X> + Clone + Send + Sync + 'static> B for X {}
type RT<S> = ReaderT<Env, S, i64>;
fn build_t<S: B>(p: &T, log: &SLog<Ev>) -> RT<S> {
    let log = log.clone();
    let one = |a: i64| S::mk(&M::one(a));
    match p.clone() {
        T::Pure(a) => ReaderT::pure(a, one),
        T::New(t, f) => ReaderT::new(move |e: Env| {
            log.add((t, e.h()));
            S::mk(&kl(S::K, f, e.h()))
        }),
        T::Lift(m) => <RT<S> as MonadTransformer>::lift(S::mk(&m)),
        T::Ask(t) => {
            let r: ReaderT<Env, S, Env> = RT::<S>::ask(move |e: Env| {
                log.add((t, e.h()));
                S::mk(&M::one(e.h()))
            });
            ReaderT::new(move |e| r.run_reader(e))
        },
        T::Asks(t, f) => RT::<S>::asks(
            move |e: Env| {
                log.add((t, e.h()));
                f.ap(e.h())
            },
            one,
        ),
        T::AskWith(t, f) => RT::<S>::ask_with(
            move |e: &Env| {
                log.add((t, e.h()));
                f.ap(e.h())
            },
            one,
        ),
        T::AsksWith(t, f) => RT::<S>::asks_with(
            move |e: &Env| {
                log.add((t, e.h()));
                e.h()
            },
            move |x| f.ap(x),
            one,
        ),
        T::Local(p, t, f) => build_t::<S>(&p, &log).local(move |e: Env| {
            log.add((t, e.h()));
            e.step(f)
        }),
        T::Fmap(p, t, f, with) => {
            let p = build_t::<S>(&p, &log);
            let g = move |a: i64| {
                log.add((t, a));
                f.ap(a)
            };
            if with { p.fmap_with(g, |m: S, g| S::mk(&m.view().map(|a| g(*a)))) } else { p.fmap(g) }
        },
        T::Bind(p, t, f, ks, with) => {
            let p = build_t::<S>(&p, &log);
            let k = move |a: i64| -> RT<S> {
                log.add((t, a));
                build_t::<S>(&ks[f.small(a, ks.len() as u64) as usize], &log).fmap(move |b| f.ap2(a, b))
            };
            if with {
                p.bind_with(k, |m: S, k: Arc<dyn Fn(i64) -> S + Send + Sync>| S::mk(&m.view().bind(S::K, |a| k(*a).view())))
            } else {
                p.bind(k)
            }
        },
        T::Combine(a, b, t, f, how) => {
            let (a, b) = (build_t::<S>(&a, &log), build_t::<S>(&b, &log));
            let g = move |x: i64, y: i64| {
                log.add((t, x));
                f.ap2(x, y)
            };
            let l2 = |a: S, b: S, g: &dyn Fn(i64, i64) -> i64| S::mk(&a.view().lift2(S::K, &b.view(), |x, y| g(*x, *y)));
            match how {
                0 => a.combine_with(&b, g, move |x: S, y: S, g: Box<dyn Fn(&i64, &i64) -> i64 + Send + Sync + '_>| l2(x, y, &|x, y| g(&x, &y))),
                4 => {
                    // the function reader's own values select the function
                    let fs: ReaderT<Env, S, fn(i64) -> i64> = ReaderT::new(move |e| b.run_reader(e));
                    a.apply_with(&fs, move |x: S, y: S| l2(x, y, &g))
                },
                1 => {
                    // one combining function serves many pairs of readers
                    let both = a.lift2(g, move |x: S, y: S, g| l2(x, y, &g));
                    let d = |n: i64| RT::<S>::new(move |e: Env| S::mk(&M::one(n ^ e.h())));
                    let early = (t % 2 == 0).then(|| both(&d(17), &d(18)));
                    let res = both(&a, &b);
                    let late = (t % 2 == 1).then(|| both(&d(17), &d(18)));
                    std::mem::drop((early, late));
                    res
                },
                _ => a.combine(&b, g),
            }
        },
        T::Shared(p, t, f) => {
            let s = build_t::<S>(&p, &log);
            let l = s.local(move |e: Env| {
                log.add((t, e.h()));
                e.step(f)
            });
            l.combine(&s.clone(), move |x: i64, y: i64| f.ap2(x, y))
        },
    }
}
fn run_t(p: &T, k: K, e: &Env, log: &mut Vec<Ev>) -> M<i64> {
    match p {
        T::Pure(a) => M::one(*a),
        T::New(t, f) => {
            log.push((*t, e.h()));
            kl(k, *f, e.h())
        },
        T::Lift(m) => m.clone(),
        T::Ask(t) => {
            log.push((*t, e.h()));
            M::one(e.h())
        },
        T::Asks(t, f) | T::AskWith(t, f) | T::AsksWith(t, f) => {
            log.push((*t, e.h()));
            M::one(f.ap(e.h()))
        },
        T::Local(p, t, f) => {
            log.push((*t, e.h()));
            run_t(p, k, &e.step(*f), log)
        },
        T::Fmap(p, t, f, _) => run_t(p, k, e, log).map(|a| {
            log.push((*t, *a));
            f.ap(*a)
        }),
        T::Bind(p, t, f, ks, _) => run_t(p, k, e, log).bind(k, |a| {
            log.push((*t, *a));
            run_t(&ks[f.small(*a, ks.len() as u64) as usize], k, e, log).map(|b| f.ap2(*a, *b))
        }),
        T::Combine(a, b, t, f, _) => {
            let x = run_t(a, k, e, log);
            let y = run_t(b, k, e, log);
            x.lift2(k, &y, |x, y| {
                log.push((*t, *x));
                f.ap2(*x, *y)
            })
        },
        T::Shared(p, t, f) => {
            log.push((*t, e.h()));
            let x = run_t(p, k, &e.step(*f), log);
            let y = run_t(p, k, e, log);
            x.lift2(k, &y, |x, y| f.ap2(*x, *y))
        },
    }
}
fn env(r: &mut Rng) -> Env {
    Env(r.vec_tail(4))
}

fn main() {
    main_with("C18", |cx| {
        cx.rule = "a case is a random reader program (nested ask/asks/local/fmap/bind/combine/reuse/lift) and environments; each is run repeatedly, from clones and from threads, and its result and the \
                   environment every part was given are compared with an interpreter. Distinct by (kind, program)."
            .into();
        mon::shapes::rounds(cx);
        let mut r = cx.rng.split();
        mon::worn::reader(cx, &mut r);
        cx.require("worn_runs", 4_000);
        let n = cx.n(64_000, 4_000_000);
        cx.par(8, |cx, _| {
            for i in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                plain(cx, &mut r, i);
                trans::<Option<i64>>(cx, &mut r, "Option");
                trans::<Result<i64, String>>(cx, &mut r, "Result");
                trans::<Maybe<i64>>(cx, &mut r, "Maybe");
                trans::<Either<String, i64>>(cx, &mut r, "Either");
                trans::<Validated<String, i64>>(cx, &mut r, "Validated");
                trans::<Choice<i64>>(cx, &mut r, "Choice");
                trans::<Id<i64>>(cx, &mut r, "Id");
                trans::<Writer<Vec<String>, i64>>(cx, &mut r, "Writer");
                res_t(cx, &mut r);
                if i % 16 == 0 {
                    mon::knots::reader(cx, &mut r);
                }
            }
        });
        cx.require("with_local", 500);
        cx.require("failed_runs", 300);
        cx.require("threaded", 20);
        cx.require("inside_itself", 500);
    });
}
fn plain(cx: &mut Ctx, r: &mut Rng, i: usize) {
    let mut tag = 0;
    let d = 1 + r.below(4);
    let p = if r.chance(1, 60) { long_p(r, &mut tag) } else { gen_p(r, d, &mut tag) };
    let log = SLog::new();
    let c = || format!("{p:?}");
    cx.case("reader", &p, tag > 2, c);
    if format!("{p:?}").contains("Local") {
        cx.count("with_local", 1);
    }
    let Some(rd) = cx.guard("reader.build", c, || build(&p, &log)) else { return };
    cx.check("reader.build.effects", log.take().is_empty(), || format!("functions ran before the program was run: {}", c()));
    let cl = rd.clone();
    let envs = [env(r), env(r)];
    for (j, e) in [&envs[0], &envs[1], &envs[0]].into_iter().enumerate() {
        let mut l = vec![];
        let want = run(&p, e, &mut l);
        let cc = || format!("run {j} in {e:?} of {}", c());
        if let Some(g) = cx.guard("reader.run", cc, || if j == 1 { cl.run_reader(e.clone()) } else { rd.run_reader(e.clone()) }) {
            cx.eq("reader.run", &g, &want, cc);
            cx.eq("reader.run.calls", &log.take(), &l, cc);
        }
    }
    // laws
    let (f, e, a) = (Fun::gen_(r), &envs[0], r.small());
    let k = {
        let (p, log) = (p.clone(), log.clone());
        move |a: i64| build(&p, &log).fmap(move |b| f.ap2(a, b))
    };
    let w = run(&p, e, &mut vec![]);
    if let Some((x, y)) = cx.guard("reader.laws", c, || {
        let x = Reader::new(move |_: Env| a).bind(k.clone()).run_reader(e.clone());
        let y = rd.bind(|a| Reader::new(move |_: Env| a)).run_reader(e.clone());
        (x, y)
    }) {
        cx.eq("reader.left_id", &x, &f.ap2(a, w), c);
        cx.eq("reader.right_id", &y, &w, c);
    }
    if i % 60 == 0 {
        cx.count("threaded", 1);
        let outs: Vec<(Env, i64)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4)
                .map(|j| {
                    let rd = &rd;
                    sc.spawn(move || {
                        let e = Env(vec![j, j + 1]);
                        (0..5).map(|_| (e.clone(), rd.run_reader(e.clone()))).collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        for (e, got) in outs {
            cx.eq("reader.threads", &got, &run(&p, &e, &mut vec![]), || format!("in {e:?} while other threads run it too: {}", c()));
        }
    }
}
fn trans<S: B>(cx: &mut Ctx, r: &mut Rng, ty: &str) {
    let k = S::K;
    let mut tag = 0;
    let d = 1 + r.below(if k == K::Choice { 3 } else { 4 });
    let p = if !k.multi() && r.chance(1, 100) { long_t(r, k, &mut tag) } else { gen_t(r, k, d, &mut tag) };
    let log = SLog::new();
    let c = || format!("ReaderT over {ty}: {p:?}");
    cx.case(ty, &p, tag > 2, c);
    let Some(rt) = cx.guard(&format!("reader_t.{ty}.build"), c, || build_t::<S>(&p, &log)) else { return };
    cx.check(&format!("reader_t.{ty}.build.effects"), log.take().is_empty(), || format!("functions ran before the program was run: {}", c()));
    let envs = [env(r), env(r)];
    for (j, e) in [&envs[0], &envs[1], &envs[0]].into_iter().enumerate() {
        let mut l = vec![];
        let want = run_t(&p, k, e, &mut l);
        if !want.ok() {
            cx.count("failed_runs", 1);
        }
        if want.items.len() > 300 {
            return;
        }
        let cc = || format!("run {j} in {e:?}, {}", c());
        if let Some(g) = cx.guard(&format!("reader_t.{ty}.run"), cc, || match j {
            0 => rt.run_reader(e.clone()),
            1 => rt.clone().unwrap_with(e.clone()),
            _ => rt.clone().run_reader(e.clone()),
        }) {
            cx.eq(&format!("reader_t.{ty}.run"), &g.view(), &want, cc);
            cx.eq(&format!("reader_t.{ty}.calls"), &log.take(), &l, cc);
        }
    }
}
fn res_t(cx: &mut Ctx, r: &mut Rng) {
    let mut tag = 0;
    let d = r.below(3);
    let p = gen_t(r, K::Res, d, &mut tag);
    let log = SLog::new();
    let rt = build_t::<Result<i64, String>>(&p, &log);
    let e = env(r);
    let ms = r.string();
    let w = run_t(&p, K::Res, &e, &mut vec![]);
    let want: Result<i64, String> = if w.ok() { Ok(w.items[0]) } else { Err(w.errs[0].clone()) };
    let c = || format!("in {e:?} context {ms:?}: {p:?}");
    let mlog = SLog::new();
    let ml = mlog.clone();
    let vw = |e: ComposableError<String>| (e.core_error().clone(), e.context().to_vec());
    if let Some((a, b, m)) = cx.guard("reader_t.try", c, || {
        (
            rt.try_run_reader(e.clone()).map_err(|e| vw(e)),
            rt.try_run_reader_with_context(e.clone(), ms.clone()).map_err(|e| vw(e)),
            rt.map_error(move |e: String| {
                ml.add(e.clone());
                e.len()
            })
            .run_reader(e.clone()),
        )
    }) {
        cx.eq("reader_t.try_run_reader", &a, &want.clone().map_err(|e| (e, Vec::<String>::new())), c);
        cx.eq("reader_t.try_run_reader_with_context", &b, &want.clone().map_err(|e| (e, vec![ms.clone()])), c);
        cx.eq("reader_t.map_error", &m, &want.clone().map_err(|e| e.len()), c);
        let l = mlog.take();
        cx.eq("reader_t.map_error.calls", &l, &want.err().into_iter().collect::<Vec<_>>(), c);
    }
}
