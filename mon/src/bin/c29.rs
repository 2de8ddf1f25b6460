//! C29: Bifunctor, Comonad and lazily evaluated values.
use mon::*;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::comonad::Comonad;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::functor::Functor;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::identity::Identity;
use smallvec::SmallVec;

/// model of a two-sided value: the right (first) payloads or the left (second) payloads
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct Two<A, B> {
    first: Vec<A>,
    second: Vec<B>,
}
trait Bi<A, B>: Sized {
    const NAME: &'static str;
    fn mk(t: &Two<A, B>) -> Self;
    fn view(&self) -> Two<A, B>;
}
impl<A: Clone, B: Clone> Bi<A, B> for Either<B, A> {
    const NAME: &'static str = "either";
    fn mk(t: &Two<A, B>) -> Self {
        match t.first.first() {
            Some(a) => Either::Right(a.clone()),
            None => Either::Left(t.second[0].clone()),
        }
    }
    fn view(&self) -> Two<A, B> {
        match self {
            Either::Right(a) => Two { first: vec![a.clone()], second: vec![] },
            Either::Left(b) => Two { first: vec![], second: vec![b.clone()] },
        }
    }
}
impl<A: Clone, B: Clone> Bi<A, B> for Validated<B, A> {
    const NAME: &'static str = "validated";
    fn mk(t: &Two<A, B>) -> Self {
        match t.first.first() {
            Some(a) => Validated::Valid(a.clone()),
            None => Validated::Invalid(SmallVec::from_vec(t.second.clone())),
        }
    }
    fn view(&self) -> Two<A, B> {
        match self {
            Validated::Valid(a) => Two { first: vec![a.clone()], second: vec![] },
            Validated::Invalid(es) => Two { first: vec![], second: es.to_vec() },
        }
    }
}
type Ev = (char, i64);
fn two<A: Clone + std::fmt::Debug, B: Clone>(x: Option<A>, bs: Vec<B>) -> Two<A, B> {
    match x {
        Some(a) => Two { first: vec![a], second: vec![] },
        None => Two { first: vec![], second: bs },
    }
}
fn s_of(n: i64) -> String {
    format!("s{n}")
}
/// laws on one value of a two-sided type; second payloads are strings so that sides cannot be confused by the compiler only
fn bi<T, S, W>(cx: &mut Ctx, t: &Two<i64, String>, f: Fun, g: Fun, h: Fun, k: Fun)
where
    T: Bi<i64, String>
        + Clone
        + PartialEq
        + std::fmt::Debug
        + Bifunctor<Source = i64, Source2 = String>
        + BinaryHKT<BinaryOutput<i64, String> = T, BinaryOutput<i64, i64> = S, BinaryOutput<String, String> = W>,
    S: Bi<i64, i64> + Bifunctor<Source = i64, Source2 = i64> + BinaryHKT<BinaryOutput<i64, String> = T, BinaryOutput<i64, i64> = S> + Clone + PartialEq + std::fmt::Debug,
    W: Bi<String, String>,
{
    let nm = T::NAME;
    let log: Log<Ev> = Log::default();
    let ff = |x: &i64| {
        log.add(('f', *x));
        f.ap(*x)
    };
    let gg = |x: &String| {
        log.add(('g', x.len() as i64));
        format!("{x}{}", g.ap(x.len() as i64))
    };
    let gm = |x: &String| format!("{x}{}", g.ap(x.len() as i64));
    let v = T::mk(t);
    let ctx = &|| format!("{nm} {t:?} f={f:?} g={g:?}");
    let cl_f: Vec<Ev> = t.first.iter().map(|x| ('f', *x)).collect();
    let cl_g: Vec<Ev> = t.second.iter().map(|x| ('g', x.len() as i64)).collect();
    let cl_b: Vec<Ev> = cl_f.iter().chain(&cl_g).copied().collect();
    let mf: Vec<i64> = t.first.iter().map(|x| f.ap(*x)).collect();
    let mg: Vec<String> = t.second.iter().map(gm).collect();
    let _ = log.take();
    macro_rules! chk {
        ($sig:literal, $got:expr, $a:expr, $b:expr, $calls:expr) => {{
            let got = $got;
            cx.eq(&format!("{nm}.{}", $sig), &got.view(), &Two { first: $a.clone(), second: $b.clone() }, ctx);
            cx.eq(&format!("{nm}.{}.calls", $sig), &log.take(), &$calls.clone(), ctx);
            cx.eq(&format!("{nm}.{}.operand", $sig), &v, &T::mk(t), ctx);
        }};
    }
    chk!("first", Bifunctor::first(&v, ff), mf, t.second, cl_f);
    chk!("second", Bifunctor::second(&v, gg), t.first, mg, cl_g);
    chk!("bimap", Bifunctor::bimap(&v, ff, gg), mf, mg, cl_b);
    chk!("map_second", v.map_second(gg), t.first, mg, cl_g);
    chk!("map_second_owned", v.clone().map_second_owned(|x| gg(&x)), t.first, mg, cl_g);
    // identity
    let none: Vec<Ev> = vec![];
    chk!("identity.first", Bifunctor::first(&v, |x| *x), t.first, t.second, none);
    chk!("identity.second", Bifunctor::second(&v, |x: &String| x.clone()), t.first, t.second, none);
    chk!("identity.bimap", Bifunctor::bimap(&v, |x| *x, |x: &String| x.clone()), t.first, t.second, none);
    // composition through an intermediate type whose sides have the same type: a swap of sides would be visible
    let hh = |x: &i64| h.ap(*x);
    let kk = |x: &i64| k.ap(*x);
    let len = |x: &String| x.len() as i64;
    let two_steps = Bifunctor::bimap(&v, |x| f.ap(*x), len).bimap(hh, |x: &i64| s_of(kk(x)));
    let one = Bifunctor::bimap(&v, |x| h.ap(f.ap(*x)), |x: &String| s_of(kk(&len(x))));
    cx.eq(&format!("{nm}.compose.bimap"), &two_steps, &one, ctx);
    let fs = Bifunctor::second(&Bifunctor::first(&v, |x| f.ap(*x)), gm);
    let sf = Bifunctor::first(&Bifunctor::second(&v, gm), |x| f.ap(*x));
    let b = Bifunctor::bimap(&v, |x| f.ap(*x), gm);
    cx.eq(&format!("{nm}.first_second"), &fs, &b, ctx);
    cx.eq(&format!("{nm}.second_first"), &sf, &b, ctx);
    let same = Two { first: t.first.clone(), second: t.second.iter().map(len).collect::<Vec<i64>>() };
    let s = S::mk(&same);
    cx.eq(&format!("{nm}.same.first"), &Bifunctor::first(&s, hh).view(), &Two { first: same.first.iter().map(hh).collect(), second: same.second.clone() }, ctx);
    cx.eq(&format!("{nm}.same.second"), &Bifunctor::second(&s, hh).view(), &Two { first: same.first.clone(), second: same.second.iter().map(hh).collect() }, ctx);
    cx.eq(&format!("{nm}.same.bimap"), &Bifunctor::bimap(&s, hh, kk).view(), &Two { first: same.first.iter().map(hh).collect(), second: same.second.iter().map(kk).collect() }, ctx);
    let w = Bifunctor::first(&v, |x: &i64| s_of(f.ap(*x)));
    cx.eq(&format!("{nm}.type_change.first"), &w.view(), &Two { first: mf.iter().map(|x| s_of(*x)).collect(), second: t.second.clone() }, ctx);
    cx.count(&format!("{nm}.{}", if t.first.is_empty() { "second_side" } else { "first_side" }), 1);
    if t.second.len() > 8 {
        cx.count(&format!("{nm}.spilled"), 1);
    }
}
fn comonad<T: Clone + PartialEq + std::fmt::Debug>(cx: &mut Ctx, nm: &str, x: T, f: impl Fn(&T) -> i64 + Copy, g: Fun)
where
    Id<T>: Comonad + rustica::traits::hkt::HKT<Source = T, Output<i64> = Id<i64>>,
{
    let ctx = &|| format!("id<{nm}> {x:?} g={g:?}");
    let w = Id::new(x.clone());
    let calls: Log<T> = Log::default();
    let ff = |w: &Id<T>| {
        calls.add(w.value().clone());
        f(w.value())
    };
    cx.eq(&format!("id.{nm}.extract"), &w.extract(), &x, ctx);
    cx.eq(&format!("id.{nm}.duplicate_extract"), &Comonad::extract(&w.duplicate()), &x, ctx);
    cx.eq(&format!("id.{nm}.duplicate"), w.duplicate().value(), &x, ctx);
    let e: Id<i64> = w.extend(ff);
    cx.eq(&format!("id.{nm}.extend_extract"), &e.extract(), &f(&x), ctx);
    cx.eq(&format!("id.{nm}.extend.calls"), &calls.take(), &vec![x.clone()], ctx);
    // extend f . extend g == extend (f . extend g)
    let a: Id<i64> = w.extend(|w| f(w.value())).extend(|w: &Id<i64>| g.ap(w.extract()));
    let b: Id<i64> = w.extend(|w| g.ap(w.extend(|v: &Id<T>| f(v.value())).extract()));
    cx.eq(&format!("id.{nm}.extend_assoc"), &a, &b, ctx);
    // extend f == fmap f . duplicate
    let via: Id<i64> = w.duplicate().fmap(|y: &T| f(y));
    cx.eq(&format!("id.{nm}.extend_fmap"), &e, &via, ctx);
    cx.eq(&format!("id.{nm}.operand"), w.value(), &x, ctx);
    cx.count("comonad", 1);
}
#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
enum Kind {
    Thunk,
    Io,
}
/// a lazily evaluated value counting its evaluations and returning the count-dependent value
fn lazy(cx: &mut Ctx, r: &mut Rng) {
    let (x, f, p) = (r.small(), Fun::gen_(r), Fun::gen_(r));
    let kind = if r.chance(1, 2) { Kind::Thunk } else { Kind::Io };
    let okind = if r.chance(1, 2) { Kind::Thunk } else { Kind::Io };
    let ops: Vec<usize> = (0..1 + r.below(8)).map(|_| r.below(16)).collect();
    cx.case("lazy", &(x, kind, okind, f, p, &ops), true, || format!("{kind:?} other={okind:?} x={x} f={f:?} p={p:?} ops={ops:?}"));
    match kind {
        Kind::Thunk => {
            let log: SLog<i64> = SLog::default();
            let l = log.clone();
            let n = std::sync::atomic::AtomicI64::new(0);
            let n = std::sync::Arc::new(n);
            lazy_on(cx, "thunk", Thunk::new(move || tick(&n, &l, x)), x, log, okind, f, p, &ops)
        },
        Kind::Io => {
            let log: SLog<i64> = SLog::default();
            let l = log.clone();
            let n = std::sync::Arc::new(std::sync::atomic::AtomicI64::new(0));
            lazy_on(cx, "io", IO::new(move || tick(&n, &l, x)), x, log, okind, f, p, &ops)
        },
    }
}
fn tick(n: &std::sync::atomic::AtomicI64, l: &SLog<i64>, x: i64) -> i64 {
    let k = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    l.add(k);
    x.wrapping_add(k)
}
#[allow(clippy::too_many_arguments)]
fn lazy_on<T>(cx: &mut Ctx, nm: &str, t: T, x: i64, log: SLog<i64>, okind: Kind, f: Fun, p: Fun, ops: &[usize])
where
    T: Evaluate<Source = i64> + Clone,
{
    let ctx = &|| format!("{nm} x={x} f={f:?} p={p:?} other={okind:?} ops={ops:?}");
    cx.eq(&format!("{nm}.lazy"), &log.len(), &0, ctx);
    let mut k = 0i64; // evaluations so far
    for &op in ops {
        let v = x.wrapping_add(k);
        let calls: SLog<i64> = SLog::default();
        let c = calls.clone();
        let fc = f;
        let ff = move |y: i64| {
            c.add(y);
            fc.ap(y)
        };
        let olog: SLog<i64> = SLog::default();
        let (ol, pp) = (olog.clone(), p);
        let th = move |y: i64| {
            let (ol, pp) = (ol.clone(), pp);
            Thunk::new(move || {
                ol.add(y);
                pp.ap(y)
            })
        };
        let (ol, pp) = (olog.clone(), p);
        let io = move |y: i64| {
            let (ol, pp) = (ol.clone(), pp);
            IO::new(move || {
                ol.add(y);
                pp.ap(y)
            })
        };
        let mut want_calls = vec![v];
        let mut want_o = vec![];
        let (sig, got, want): (&str, Option<i64>, Option<i64>) = match op {
            0 => {
                want_calls.clear();
                ("evaluate", Some(t.evaluate()), Some(v))
            },
            1 => {
                want_calls.clear();
                ("evaluate_owned", Some(t.clone().evaluate_owned()), Some(v))
            },
            2 => ("fmap_evaluate", Some(t.fmap_evaluate(ff)), Some(f.ap(v))),
            3 => ("map_evaluate", Some(t.map_evaluate(ff)), Some(f.ap(v))),
            4 => ("fmap_evaluate_owned", Some(t.clone().fmap_evaluate_owned(ff)), Some(f.ap(v))),
            5 => ("map_evaluate_owned", Some(t.clone().map_evaluate_owned(ff)), Some(f.ap(v))),
            6..=9 => {
                want_o = vec![f.ap(v)];
                let w = Some(p.ap(f.ap(v)));
                match (op, okind) {
                    (6, Kind::Thunk) => ("bind_evaluate", Some(t.bind_evaluate(|y| th(ff(y)))), w),
                    (6, _) => ("bind_evaluate", Some(t.bind_evaluate(|y| io(ff(y)))), w),
                    (7, Kind::Thunk) => ("and_then_evaluate", Some(t.and_then_evaluate(|y| th(ff(y)))), w),
                    (7, _) => ("and_then_evaluate", Some(t.and_then_evaluate(|y| io(ff(y)))), w),
                    (8, Kind::Thunk) => ("bind_evaluate_owned", Some(t.clone().bind_evaluate_owned(|y| th(ff(y)))), w),
                    (8, _) => ("bind_evaluate_owned", Some(t.clone().bind_evaluate_owned(|y| io(ff(y)))), w),
                    (_, Kind::Thunk) => ("and_then_evaluate_owned", Some(t.clone().and_then_evaluate_owned(|y| th(ff(y)))), w),
                    _ => ("and_then_evaluate_owned", Some(t.clone().and_then_evaluate_owned(|y| io(ff(y)))), w),
                }
            },
            10..=11 => {
                let y0 = x ^ 5;
                want_o = vec![y0];
                let w = Some(v.wrapping_mul(3).wrapping_sub(p.ap(y0)));
                let comb = |a: i64, b: i64| {
                    calls.add(a);
                    a.wrapping_mul(3).wrapping_sub(b)
                };
                match (op, okind) {
                    (10, Kind::Thunk) => ("combine_evaluate", Some(t.combine_evaluate(&th(y0), comb)), w),
                    (10, _) => ("combine_evaluate", Some(t.combine_evaluate(&io(y0), comb)), w),
                    (_, Kind::Thunk) => ("combine_evaluate_owned", Some(t.clone().combine_evaluate_owned(th(y0), comb)), w),
                    _ => ("combine_evaluate_owned", Some(t.clone().combine_evaluate_owned(io(y0), comb)), w),
                }
            },
            12..=13 => {
                let pr = |y: &i64| {
                    calls.add(*y);
                    f.pred(*y)
                };
                let w = f.pred(v).then_some(v);
                cx.count(if w.is_some() { "filter.kept" } else { "filter.dropped" }, 1);
                if op == 12 { ("filter_evaluate", t.filter_evaluate(pr), w) } else { ("filter_evaluate_owned", t.clone().filter_evaluate_owned(pr), w) }
            },
            _ => {
                // cloning and building dependent values evaluates nothing
                let c = t.clone();
                drop(c);
                let _a = th(3);
                let _b = io(3);
                want_calls.clear();
                cx.eq(&format!("{nm}.clone_is_lazy"), &(log.len(), olog.len()), &(k as usize, 0), ctx);
                continue;
            },
        };
        k += 1;
        cx.eq(&format!("{nm}.{sig}"), &got, &want, ctx);
        cx.eq(&format!("{nm}.{sig}.evaluations"), &log.len(), &(k as usize), ctx);
        cx.eq(&format!("{nm}.{sig}.calls"), &calls.take(), &want_calls, ctx);
        cx.eq(&format!("{nm}.{sig}.other"), &olog.take(), &want_o, ctx);
        cx.count("lazy.evaluations", 1);
    }
}
fn main() {
    main_with("C29", |cx| {
        cx.rule = "first/second/bimap/map_second of every two-sided type act on the named side only, each payload visited once, identity and composition hold; extract/duplicate/extend obey the comonad laws; lazily evaluated values run their computation exactly when asked, once per request".into();
        mon::shapes::rounds(cx);
        cx.assumptions = vec!["for Either and Validated the first component is the right/valid side, as the type parameters of BinaryHKT declare".into()];
        for c in ["either.first_side", "either.second_side", "validated.first_side", "validated.second_side", "validated.spilled", "comonad", "lazy.evaluations", "filter.kept", "filter.dropped"] {
            cx.require(c, 50);
        }
        for _ in 0..3 {
            let mut r = cx.rng.split();
            let (lo, hi) = (250 + r.below(1_200), 65_536 + r.below(3_000));
            let m = if r.chance(1, 2) { lo } else { hi };
            let (f, g, h, k) = (Fun::gen_(&mut r), Fun::gen_(&mut r), Fun::gen_(&mut r), Fun::gen_(&mut r));
            let e = two(None, (0..m).map(|i| format!("e{i}")).collect());
            cx.case("validated", &(&e, &f, &g), true, || format!("{m} errors {f:?} {g:?}"));
            bi::<Validated<String, i64>, Validated<i64, i64>, Validated<String, String>>(cx, &e, f, g, h, k);
        }
        let n = cx.n(40_000, 4_000_000);
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                let x = r.chance(1, 2).then(|| r.small());
                let (f, g, h, k) = (Fun::gen_(&mut r), Fun::gen_(&mut r), Fun::gen_(&mut r), Fun::gen_(&mut r));
                let e1 = two(x, vec![r.string()]);
                cx.case("either", &(&e1, &f, &g), true, || format!("{e1:?} {f:?} {g:?}"));
                bi::<Either<String, i64>, Either<i64, i64>, Either<String, String>>(cx, &e1, f, g, h, k);
                let m = if r.chance(1, 8) { 0 } else { r.len_tail(20) };
                let e2 = two(x, (0..m).map(|_| r.string()).collect());
                cx.case("validated", &(&e2, &f, &g), true, || format!("{e2:?} {f:?} {g:?}"));
                bi::<Validated<String, i64>, Validated<i64, i64>, Validated<String, String>>(cx, &e2, f, g, h, k);
                let y = r.small();
                cx.case("comonad", &(y, &f, &g), true, || format!("{y} {f:?} {g:?}"));
                comonad(cx, "int", y, |v| v.wrapping_mul(3), g);
                let s = r.string();
                comonad(cx, "string", s, |v| v.len() as i64, g);
                let vs = r.vec_tail(12);
                comonad(cx, "vec", vs, |v| v.iter().fold(7, |a: i64, b| a.wrapping_mul(31).wrapping_add(*b)), f);
                lazy(cx, &mut r);
            }
        });
    });
}
