use mon::views::*;
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::traits::hkt::HKT;
use rustica::traits::monad::Monad;
use rustica::transformers::{ContT, MonadTransformer};
use std::cell::RefCell;
use std::sync::Arc;

type Ev = (u32, i64);
#[derive(Clone, Debug, Hash)]
enum P {
    Pure(i64),
    Once(u32, i64),
    Twice(u32, Fun),
    Abort(u32, M<i64>),
    Lift(M<i64>),
    Fmap(Box<P>, u32, Fun),
    Bind(Box<P>, u32, Fun, Vec<P>),
    /// value program, function program (whose value selects the function)
    Apply(Box<P>, Box<P>, u32, Fun),
    CallCC(Box<P>, u32),
    /// run the program, then leave the n-th enclosing block with its value
    Esc(usize, Box<P>),
    Shared(Box<P>, Fun),
    Conv(Box<P>),
}
fn kl(k: K, f: Fun, x: i64) -> M<i64> {
    let mut m = M::one(f.ap(x));
    let fail = f.small(x, 5) == 0;
    match k {
        K::Choice => m.items = (0..[1, 2, 0, 1, 3][f.small(x, 5) as usize]).map(|i| f.ap(x) + i).collect(),
        K::Writer => m.log = vec![format!("w{x}")],
        K::Id => {},
        K::Opt | K::Maybe if fail => m.items.clear(),
        _ if fail => {
            m.items.clear();
            m.errs = vec![format!("k{x}")];
        },
        _ => {},
    }
    m
}
/// the answers of a program that continued twice
fn both(k: K, mut x: M<i64>, y: M<i64>, f: Fun) -> M<i64> {
    if k.multi() {
        x.items.extend(y.items);
        return x;
    }
    x.lift2(k, &y, |a, b| f.ap2(*a, *b))
}
fn gen_p(r: &mut Rng, k: K, d: usize, tag: &mut u32, fuel: &mut u32, blocks: usize) -> P {
    *tag += 1;
    let (t, f) = (*tag, Fun::gen_(r));
    let base = |r: &mut Rng| {
        let mut m = gen_m(k, r, |r| r.small());
        m.items.truncate(2);
        m
    };
    if d == 0 || r.chance(1, 8) {
        return match r.below(8) {
            0 | 1 => P::Pure(r.small()),
            2 if *fuel > 0 => {
                *fuel -= 1;
                P::Twice(t, f)
            },
            3 => P::Abort(t, base(r)),
            4 | 5 => {
                let m = base(r);
                if m.items.len() > 1 {
                    if *fuel == 0 {
                        return P::Pure(1);
                    }
                    *fuel -= 1;
                }
                P::Lift(m)
            },
            _ => P::Once(t, r.small()),
        };
    }
    macro_rules! sub {
        ($b:expr) => {
            Box::new(gen_p(r, k, d - 1, tag, fuel, $b))
        };
    }
    match r.below(13) {
        0 | 1 => P::Fmap(sub!(blocks), t, f),
        2..=4 => {
            let p = sub!(blocks);
            let n = 1 + r.below(2);
            P::Bind(p, t, f, (0..n).map(|_| *sub!(blocks)).collect())
        },
        5 | 6 => P::Apply(sub!(blocks), sub!(blocks), t, f),
        7 | 8 => P::CallCC(sub!(blocks + 1), t),
        9 | 10 if blocks > 0 => P::Esc(r.below(blocks), sub!(blocks)),
        11 => {
            let fu = *fuel;
            let p = sub!(blocks);
            // used twice: whatever it re-runs, it re-runs twice
            *fuel -= (fu - *fuel).min(*fuel);
            P::Shared(p, f)
        },
        12 => P::Conv(sub!(blocks)),
        _ => P::Fmap(sub!(blocks), t, f),
    }
}
/// a long run of small steps, nested to the left, to the right or both
fn long_p(r: &mut Rng, k: K, tag: &mut u32) -> P {
    let (n, right) = (10 + r.below(60), r.below(3));
    // nothing that continues more than once, or the answers multiply
    let mut leaf = |r: &mut Rng, tag: &mut u32| {
        *tag += 1;
        match r.below(24) {
            0 => P::Abort(*tag, M::one(r.small())),
            1..=8 => P::Pure(r.small()),
            9..=12 => P::Lift(M::one(r.small())),
            _ => P::Once(*tag, r.small()),
        }
    };
    let _ = k;
    let mut p = leaf(r, tag);
    for _ in 0..n {
        *tag += 1;
        let (t, f) = (*tag, Fun::gen_(r));
        p = match r.below(12) {
            0 => P::Fmap(Box::new(p), t, f),
            1 => P::Apply(Box::new(p), Box::new(leaf(r, tag)), t, f),
            2 => P::Apply(Box::new(leaf(r, tag)), Box::new(p), t, f),
            3 => P::CallCC(Box::new(p), t),
            4 => P::Conv(Box::new(p)),
            _ if right == 0 || right == 1 && r.chance(1, 2) => P::Bind(Box::new(leaf(r, tag)), t, f, vec![p]),
            _ => P::Bind(Box::new(p), t, f, vec![leaf(r, tag)]),
        };
    }
    p
}
trait B: Sub<i64> + Monad + HKT<Source = i64, Output<i64> = Self> + Clone + Send + Sync + 'static {}
impl<X: Sub<i64> + Monad + HKT<Source = i64, Output<i64> = X> + Clone + Send + Sync + 'static> B for X {}
type CT<S> = ContT<i64, S, i64>;
type EscT<S> = Arc<dyn Fn(i64) -> CT<S> + Send + Sync>;

fn build_t<S: B>(p: &P, env: &[EscT<S>], log: &SLog<Ev>) -> CT<S> {
    let log = log.clone();
    let go = |p: &P| build_t::<S>(p, env, &log);
    match p.clone() {
        P::Pure(a) => ContT::pure(a),
        P::Once(t, a) => ContT::new(move |k: Arc<dyn Fn(i64) -> S + Send + Sync>| {
            log.add((t, a));
            k(a)
        }),
        P::Twice(t, f) => ContT::new(move |k: Arc<dyn Fn(i64) -> S + Send + Sync>| {
            log.add((t, 0));
            let (x, y) = (k(f.ap(1)).view(), k(f.ap(2)).view());
            S::mk(&both(S::K, x, y, f))
        }),
        P::Abort(t, m) => ContT::new(move |_k| {
            log.add((t, 0));
            S::mk(&m)
        }),
        P::Lift(m) => <CT<S> as MonadTransformer>::lift(S::mk(&m)),
        P::Fmap(p, t, f) => go(&p).fmap(move |a| {
            log.add((t, a));
            f.ap(a)
        }),
        P::Bind(p, t, f, ks) => {
            let env2 = env.to_vec();
            go(&p).bind(move |a| {
                log.add((t, a));
                build_t::<S>(&ks[f.small(a, ks.len() as u64) as usize], &env2, &log).fmap(move |b| f.ap2(a, b))
            })
        },
        P::Apply(v, g, t, f) => {
            let l2 = log.clone();
            go(&v).apply(go(&g).fmap(move |x| {
                let l = l2.clone();
                Arc::new(move |y| {
                    l.add((t, y));
                    f.ap2(x, y)
                }) as Arc<dyn Fn(i64) -> i64 + Send + Sync>
            }))
        },
        P::CallCC(p, t) => {
            let env2 = env.to_vec();
            ContT::call_cc(move |esc: EscT<S>| {
                log.add((t, 0));
                let mut e = env2.clone();
                e.push(esc);
                build_t::<S>(&p, &e, &log)
            })
        },
        P::Esc(i, p) => {
            let k = env[i % env.len()].clone();
            go(&p).bind(move |a| k(a))
        },
        P::Shared(p, f) => {
            let s = go(&p);
            let s2 = s.clone();
            s.bind(move |a| s2.clone().fmap(move |b| f.ap2(a, b)))
        },
        P::Conv(p) => go(&p),
    }
}
type EscC = Arc<dyn Fn(i64) -> Cont<i64, i64> + Send + Sync>;
// Cont::call_cc wants a Copy closure: what the block needs is kept here and found by number
thread_local!(static BLOCKS: RefCell<Vec<(P, Vec<EscC>, SLog<Ev>, u32)>> = const { RefCell::new(vec![]) });
fn build_c(p: &P, env: &[EscC], log: &SLog<Ev>) -> Cont<i64, i64> {
    let log = log.clone();
    let go = |p: &P| build_c(p, env, &log);
    match p.clone() {
        P::Pure(a) => {
            if a % 2 == 0 {
                Cont::pure(a)
            } else {
                Cont::return_cont(a)
            }
        },
        P::Once(t, a) => Cont::new(move |k: Arc<dyn Fn(i64) -> i64 + Send + Sync>| {
            log.add((t, a));
            k(a)
        }),
        P::Twice(t, f) => Cont::new(move |k: Arc<dyn Fn(i64) -> i64 + Send + Sync>| {
            log.add((t, 0));
            let x = k(f.ap(1));
            f.ap2(x, k(f.ap(2)))
        }),
        P::Abort(t, m) => Cont::new(move |_k: Arc<dyn Fn(i64) -> i64 + Send + Sync>| {
            log.add((t, 0));
            m.items[0]
        }),
        P::Lift(m) => Cont::from(<ContT<i64, Id<i64>, i64> as MonadTransformer>::lift(Id::new(m.items[0]))),
        P::Fmap(p, t, f) => go(&p).fmap(move |a| {
            log.add((t, a));
            f.ap(a)
        }),
        P::Bind(p, t, f, ks) => {
            let env2 = env.to_vec();
            go(&p).bind(move |a| {
                log.add((t, a));
                build_c(&ks[f.small(a, ks.len() as u64) as usize], &env2, &log).fmap(move |b| f.ap2(a, b))
            })
        },
        P::Apply(v, g, t, f) => {
            let l2 = log.clone();
            go(&v).apply(go(&g).fmap(move |x| {
                let l = l2.clone();
                Arc::new(move |y| {
                    l.add((t, y));
                    f.ap2(x, y)
                }) as Arc<dyn Fn(i64) -> i64 + Send + Sync>
            }))
        },
        P::CallCC(p, t) => {
            let n = BLOCKS.with(|b| {
                let mut b = b.borrow_mut();
                b.push((*p, env.to_vec(), log.clone(), t));
                b.len() - 1
            });
            Cont::<i64, i64>::pure(0).call_cc(move |esc: Box<dyn Fn(i64) -> Cont<i64, i64> + Send + Sync>| {
                let (p, mut env, log, t) = BLOCKS.with(|b| b.borrow()[n].clone());
                log.add((t, 0));
                env.push(Arc::new(move |a| esc(a)));
                build_c(&p, &env, &log)
            })
        },
        P::Esc(i, p) => {
            let k = env[i % env.len()].clone();
            go(&p).bind(move |a| k(a))
        },
        P::Shared(p, f) => {
            let s = go(&p);
            let s2 = s.clone();
            s.bind(move |a| s2.clone().fmap(move |b| f.ap2(a, b)))
        },
        P::Conv(p) => ContT::from_cont(go(&p)).to_cont(),
    }
}
thread_local!(static STEPS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
const MAX_STEPS: u32 = 3000;
type Kont<'a> = &'a dyn Fn(i64, &mut Vec<Ev>) -> M<i64>;
fn run(p: &P, kd: K, env: &[Kont], k: Kont, log: &mut Vec<Ev>) -> M<i64> {
    // a program that re-enters itself too often is given up (and not run for real)
    let n = STEPS.get() + 1;
    STEPS.set(n);
    if n > MAX_STEPS {
        return M::one(0);
    }
    match p {
        P::Pure(a) => k(*a, log),
        P::Once(t, a) => {
            log.push((*t, *a));
            k(*a, log)
        },
        P::Twice(t, f) => {
            log.push((*t, 0));
            let x = k(f.ap(1), log);
            let y = k(f.ap(2), log);
            both(kd, x, y, *f)
        },
        P::Abort(t, m) => {
            log.push((*t, 0));
            m.clone()
        },
        P::Lift(m) => m.bind(kd, |a| k(*a, log)),
        P::Fmap(p, t, f) => run(
            p,
            kd,
            env,
            &|a, log| {
                log.push((*t, a));
                k(f.ap(a), log)
            },
            log,
        ),
        P::Bind(p, t, f, ks) => run(
            p,
            kd,
            env,
            &|a, log| {
                log.push((*t, a));
                run(&ks[f.small(a, ks.len() as u64) as usize], kd, env, &|b, log| k(f.ap2(a, b), log), log)
            },
            log,
        ),
        P::Apply(v, g, t, f) => run(
            g,
            kd,
            env,
            &|x, log| {
                run(
                    v,
                    kd,
                    env,
                    &|y, log| {
                        log.push((*t, y));
                        k(f.ap2(x, y), log)
                    },
                    log,
                )
            },
            log,
        ),
        P::CallCC(p, t) => {
            log.push((*t, 0));
            let mut e = env.to_vec();
            e.push(k);
            run(p, kd, &e, k, log)
        },
        P::Esc(i, p) => run(p, kd, env, &|a, log| env[i % env.len()](a, log), log),
        P::Shared(p, f) => run(p, kd, env, &|a, log| run(p, kd, env, &|b, log| k(f.ap2(a, b), log), log), log),
        P::Conv(p) => run(p, kd, env, k, log),
    }
}

fn main() {
    main_with("C20", |cx| {
        cx.rule = "a case is a random continuation program (pure/once/twice/abort/lift/fmap/bind/apply/call_cc/escape/reuse/convert) and a final continuation; the answer, the arguments of every call of the \
                   final continuation and of every user function are compared with an interpreter. Distinct by (form, program, final continuation)."
            .into();
        mon::shapes::rounds(cx);
        let mut r = cx.rng.split();
        mon::worn::cont(cx, &mut r);
        cx.require("worn_runs", 4_000);
        let n = cx.n(40_000, 3_000_000);
        cx.par(8, |cx, _| {
            for i in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                plain(cx, &mut r);
                trans::<Option<i64>>(cx, &mut r, "Option");
                trans::<Result<i64, String>>(cx, &mut r, "Result");
                trans::<Maybe<i64>>(cx, &mut r, "Maybe");
                trans::<Either<String, i64>>(cx, &mut r, "Either");
                trans::<Validated<String, i64>>(cx, &mut r, "Validated");
                trans::<Choice<i64>>(cx, &mut r, "Choice");
                trans::<Id<i64>>(cx, &mut r, "Id");
                trans::<Writer<Vec<String>, i64>>(cx, &mut r, "Writer");
                if i % 10 == 0 {
                    mon::knots::cont(cx, &mut r);
                }
                if i % 50 == 0 {
                    loops(cx, &mut r);
                }
            }
        });
        cx.require("escapes", 500);
        cx.require("reentered", 300);
        cx.require("aborted", 300);
        cx.require("loop_exits", 20);
        cx.require("inside_itself", 500);
    });
}
fn count(cx: &mut Ctx, p: &P, calls: usize) {
    let s = format!("{p:?}");
    if s.contains("Esc(") {
        cx.count("escapes", 1);
    }
    match calls {
        0 => cx.count("aborted", 1),
        1 => {},
        _ => cx.count("reentered", 1),
    }
}
fn plain(cx: &mut Ctx, r: &mut Rng) {
    let (mut tag, mut fuel) = (0, 4);
    let d = 1 + r.below(5);
    let p = if r.chance(1, 60) { long_p(r, K::Id, &mut tag) } else { gen_p(r, K::Id, d, &mut tag, &mut fuel, 0) };
    let f = Fun::gen_(r);
    BLOCKS.with(|b| b.borrow_mut().clear());
    let log = SLog::new();
    let c = || format!("final {f:?}, {p:?}");
    cx.case("cont", &(&p, f.0), tag > 2, c);
    let mut l = vec![];
    STEPS.set(0);
    let want = run(
        &p,
        K::Id,
        &[],
        &|a, log| {
            log.push((0, a));
            M::one(f.ap(a))
        },
        &mut l,
    );
    if STEPS.get() >= MAX_STEPS || l.len() > 3000 {
        return cx.count("too_large", 1);
    }
    let Some(ct) = cx.guard("cont.build", c, || build_c(&p, &[], &log)) else { return };
    count(cx, &p, l.iter().filter(|e| e.0 == 0).count());
    let lg = log.clone();
    log.take();
    let got = cx.guard("cont.run", c, || {
        ct.run(move |a| {
            lg.add((0, a));
            f.ap(a)
        })
    });
    if let Some(g) = got {
        cx.eq("cont.run", &g, &want.items[0], c);
        cx.eq("cont.run.calls", &log.take(), &l, c);
        second(cx, &p, f, ct, &want, &l, &log);
    }
}
/// the same value run twice, and through the laws
fn second(cx: &mut Ctx, p: &P, f: Fun, ct: Cont<i64, i64>, want: &M<i64>, l: &[Ev], log: &SLog<Ev>) {
    let c = || format!("repeated run, final {f:?}, {p:?}");
    log.take();
    let mk = || {
        let lg = log.clone();
        move |a| {
            lg.add((0, a));
            f.ap(a)
        }
    };
    let twice = cx.guard("cont.rerun", c, || (ct.run(mk()), ct.run(mk())));
    if let Some(g) = twice {
        cx.eq("cont.rerun", &g, &(want.items[0], want.items[0]), c);
        cx.eq("cont.rerun.calls", &log.take(), &[l, l].concat(), c);
    }
    if let Some(g) = cx.guard("cont.right_id", c, || ct.clone().bind(Cont::pure).run(mk())) {
        cx.eq("cont.right_id", &g, &want.items[0], c);
        cx.eq("cont.right_id.calls", &log.take(), &l.to_vec(), c);
    }
    if let Some(g) = cx.guard("cont.left_id", c, || {
        let ct2 = ct.clone();
        Cont::<i64, i64>::pure(5).bind(move |_| ct2.clone()).run(mk())
    }) {
        cx.eq("cont.left_id", &g, &want.items[0], c);
        cx.eq("cont.left_id.calls", &log.take(), &l.to_vec(), c);
    }
    let (g1, g2) = (ct.clone(), ct.clone());
    let (h1, h2) = (ct.clone(), ct.clone());
    if l.len() < 12 && STEPS.get() < 30 {
        if let Some((x, y)) = cx.guard("cont.assoc", c, || {
            let x = ct.clone().bind(move |a| g1.clone().fmap(move |b| f.ap2(a, b))).bind(move |a| g2.clone().fmap(move |b| a.wrapping_sub(b))).run(mk());
            let lx = log.take();
            let y = ct
                .clone()
                .bind(move |a| {
                    let h2 = h2.clone();
                    h1.clone().fmap(move |b| f.ap2(a, b)).bind(move |a| h2.clone().fmap(move |b| a.wrapping_sub(b)))
                })
                .run(mk());
            ((x, lx), (y, log.take()))
        }) {
            cx.eq("cont.assoc", &x, &y, c);
        }
    }
}
fn trans<S: B>(cx: &mut Ctx, r: &mut Rng, ty: &str) {
    let k = S::K;
    let (mut tag, mut fuel) = (0, 4);
    let d = 1 + r.below(5);
    let p = if r.chance(1, 100) { long_p(r, k, &mut tag) } else { gen_p(r, k, d, &mut tag, &mut fuel, 0) };
    let f = Fun::gen_(r);
    let log = SLog::new();
    let c = || format!("ContT over {ty}, final {f:?}: {p:?}");
    cx.case(ty, &(&p, f.0), tag > 2, c);
    let mut l = vec![];
    STEPS.set(0);
    let want = run(
        &p,
        k,
        &[],
        &|a, log| {
            log.push((0, a));
            kl(k, f, a)
        },
        &mut l,
    );
    if want.items.len() > 400 || l.len() > 3000 || STEPS.get() >= MAX_STEPS {
        return cx.count("too_large", 1);
    }
    let Some(ct) = cx.guard(&format!("cont_t.{ty}.build"), c, || build_t::<S>(&p, &[], &log)) else { return };
    cx.check(&format!("cont_t.{ty}.build.effects"), log.take().is_empty(), || format!("functions ran before the program was run: {}", c()));
    count(cx, &p, l.iter().filter(|e| e.0 == 0).count());
    for j in 0..2 {
        let lg = log.clone();
        let c = || format!("run {j}, {}", c());
        if let Some(g) = cx.guard(&format!("cont_t.{ty}.run"), c, || {
            ct.run(move |a| {
                lg.add((0, a));
                S::mk(&kl(S::K, f, a))
            })
        }) {
            cx.eq(&format!("cont_t.{ty}.run"), &g.view(), &want, c);
            cx.eq(&format!("cont_t.{ty}.calls"), &log.take(), &l, c);
        }
    }
}
/// leaving a long computation early: later steps never run, and the block's successor gets the value
fn loops(cx: &mut Ctx, r: &mut Rng) {
    let n = 2 + r.below(60) as i64;
    let at = r.below(n as usize + 3) as i64; // may be past the end: no exit
    let val = r.small();
    let c = || format!("loop of {n} left at {at} with {val}");
    if at < n {
        cx.count("loop_exits", 1);
    }
    let log = SLog::<i64>::new();
    let lg = log.clone();
    let prog: CT<Option<i64>> = ContT::call_cc(move |esc: EscT<Option<i64>>| {
        let mut p: CT<Option<i64>> = ContT::pure(0);
        for i in 0..n {
            let (esc, lg) = (esc.clone(), lg.clone());
            p = p.bind(move |a| {
                lg.add(i);
                if i == at { esc(val) } else { ContT::pure(a + i) }
            });
        }
        p
    });
    let lg = log.clone();
    let prog = prog.bind(move |v| {
        lg.add(-1);
        ContT::pure(v.wrapping_mul(2))
    });
    let want_v = if at < n { val.wrapping_mul(2) } else { (0..n).sum::<i64>() * 2 };
    let want_l: Vec<i64> = (0..n.min(at + 1)).chain([-1]).collect();
    if let Some(g) = cx.guard("cont_t.loop", c, || prog.run(Some)) {
        cx.eq("cont_t.loop", &g, &Some(want_v), c);
        cx.eq("cont_t.loop.steps", &log.take(), &want_l, c);
    }
}
