use mon::views::*;
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::State;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::pure::{Pure, PureExt};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};

fn main() {
    main_with("C05", |cx| {
        cx.rule = "a case is one container value plus functions f, g; map results, call logs and shapes are compared with the reference model of the type. \
                   Non-trivial: every case (empty and failed containers are part of the quantifier); distinct by (type, value, functions)."
            .into();
        mon::shapes::rounds(cx);
        for _ in 0..4 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        let n = cx.n(60_000, 6_000_000);
        cx.par(8, |cx, _| {
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let r = &mut r;
                functor::<Option<i64>>(cx, r, "Option");
                functor::<Result<i64, String>>(cx, r, "Result");
                functor::<Vec<i64>>(cx, r, "Vec");
                functor::<Maybe<i64>>(cx, r, "Maybe");
                functor::<Either<String, i64>>(cx, r, "Either");
                functor::<Validated<String, i64>>(cx, r, "Validated");
                functor::<Choice<i64>>(cx, r, "Choice");
                functor::<Id<i64>>(cx, r, "Id");
                functor::<Writer<Vec<String>, i64>>(cx, r, "Writer");
                functor::<PersistentVector<i64>>(cx, r, "PersistentVector");
                functor::<First<i64>>(cx, r, "First");
                functor::<Last<i64>>(cx, r, "Last");
                functor::<Min<i64>>(cx, r, "Min");
                functor::<Max<i64>>(cx, r, "Max");
                functor::<Sum<i64>>(cx, r, "Sum");
                functor::<Product<i64>>(cx, r, "Product");
                inherent(cx, r);
                ext(cx, r);
                computations(cx, r);
            }
        });
        cx.require("empty_or_failed", 1000);
        cx.require("spilled_over_8", 200);
    });
}

fn functor<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + Functor<Source = i64> + Clone,
    S::Output<i64>: Sub<i64> + Functor<Source = i64>,
    <S::Output<i64> as rustica::traits::hkt::HKT>::Output<i64>: Sub<i64>,
    S::Output<String>: Sub<String>,
    S::Output<()>: Sub<()>,
{
    let m = gen_m(S::K, r, |r| r.small());
    functor_on::<S>(cx, r, ty, m);
}
fn functor_on<S>(cx: &mut Ctx, r: &mut Rng, ty: &str, m: M<i64>)
where
    S: Sub<i64> + Functor<Source = i64> + Clone,
    S::Output<i64>: Sub<i64> + Functor<Source = i64>,
    <S::Output<i64> as rustica::traits::hkt::HKT>::Output<i64>: Sub<i64>,
    S::Output<String>: Sub<String>,
    S::Output<()>: Sub<()>,
{
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    let c = || format!("{ty} value={} f={f:?} g={g:?}", brief(&m));
    let s = S::mk(&m);
    if !m.ok() {
        cx.count("empty_or_failed", 1);
    }
    if m.items.len() > 8 {
        cx.count("spilled_over_8", 1);
    }
    let fresh = r.chance(1, 2);
    let log = Log::new();
    let l = log.clone();
    if let Some(v) = cx.guard(&format!("{ty}.fmap"), c, || {
        s.fmap(|x| {
            l.add(*x);
            f.ap(*x)
        })
        .view()
    }) {
        cx.eq(&format!("{ty}.fmap"), &v, &m.map(|x| f.ap(*x)), c);
        cx.eq(&format!("{ty}.fmap.calls"), &log.take(), &m.items, c);
    }
    let l = log.clone();
    if let Some(v) = cx.guard(&format!("{ty}.fmap_owned"), c, || {
        // both the sole owner of the contents and one of two owners
        (if fresh { S::mk(&m) } else { s.clone() })
            .fmap_owned(|x| {
                l.add(x);
                format!("s{}", g.ap(x))
            })
            .view()
    }) {
        cx.eq(&format!("{ty}.fmap_owned"), &v, &m.map(|x| format!("s{}", g.ap(*x))), c);
        cx.eq(&format!("{ty}.fmap_owned.calls"), &log.take(), &m.items, c);
    }
    if let Some((id, comp, two, rep, repo, vo, voo, after)) = cx.guard(&format!("{ty}.laws"), c, || {
        (
            s.fmap(|x| *x).view(),
            s.fmap(|x| g.ap(f.ap(*x))).view(),
            s.fmap(|x| f.ap(*x)).fmap(|x| g.ap(*x)).view(),
            s.replace(&f.ap(1)).view(),
            s.clone().replace_owned(format!("r{}", g.ap(2))).view(),
            s.void().view(),
            s.clone().void_owned().view(),
            s.view(),
        )
    }) {
        cx.eq(&format!("{ty}.identity"), &id, &m, c);
        cx.eq(&format!("{ty}.composition"), &two, &comp, c);
        cx.eq(&format!("{ty}.replace"), &rep, &m.map(|_| f.ap(1)), c);
        cx.eq(&format!("{ty}.replace_owned"), &repo, &m.map(|_| format!("r{}", g.ap(2))), c);
        cx.eq(&format!("{ty}.void"), &(&vo, &voo), &(&m.map(|_| ()), &m.map(|_| ())), c);
        cx.eq(&format!("{ty}.unchanged"), &after, &m, c);
    }
    cx.case(ty, &(&m, f, g), true, c);
}

/// maps offered outside the Functor trait
fn inherent(cx: &mut Ctx, r: &mut Rng) {
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    let x = r.small();
    let e: Either<i64, i64> = if r.chance(1, 2) { Either::Left(x) } else { Either::Right(x) };
    let c = || format!("{e:?} f={f:?}");
    let want = |l: bool| match (&e, l) {
        (Either::Left(x), true) => Either::Left(f.ap(*x)),
        (Either::Right(x), false) => Either::Right(f.ap(*x)),
        _ => e.clone(),
    };
    if let Some((a, b)) = cx.guard("Either.fmap_lr", c, || {
        (e.clone().fmap_left(|x| f.ap(x)), e.clone().fmap_right(|x| f.ap(x)))
    }) {
        cx.eq("Either.fmap_left", &a, &want(true), c);
        cx.eq("Either.fmap_right", &b, &want(false), c);
    }
    let mb = if r.chance(1, 2) { Maybe::Just(x) } else { Maybe::Nothing };
    let d = r.small();
    let log = Log::new();
    let l = log.clone();
    if let Some((a, b)) = cx.guard("Maybe.fmap_or", c, || {
        (
            mb.fmap_or(d, |x| f.ap(x)),
            mb.tap(|x| l.add(*x)),
        )
    }) {
        cx.eq("Maybe.fmap_or", &a, &mb.to_option().map(|x| f.ap(x)).unwrap_or(d), || format!("{mb:?} {f:?}"));
        cx.eq("Maybe.tap", &b, &mb, || format!("{mb:?}"));
        cx.eq("Maybe.tap.calls", &log.take(), &mb.to_option().into_iter().collect::<Vec<_>>(), || format!("{mb:?}"));
    }
    let m: M<i64> = gen_m(K::Val, r, |r| r.small());
    let v = Validated::<String, i64>::mk(&m);
    let l = Log::new();
    let l2 = l.clone();
    if let Some((a, b)) = cx.guard("Validated.fmap_invalid", || format!("{m:?}"), || {
        (
            v.fmap_invalid(|e| {
                l2.add(e.clone());
                format!("<{e}>")
            }),
            v.clone().fmap_invalid_owned(|e| format!("<{e}>")),
        )
    }) {
        let want: M<i64> = M { items: m.items.clone(), errs: m.errs.iter().map(|e| format!("<{e}>")).collect(), log: vec![] };
        cx.eq("Validated.fmap_invalid", &a.view(), &want, || format!("{m:?}"));
        cx.eq("Validated.fmap_invalid_owned", &b.view(), &want, || format!("{m:?}"));
        cx.eq("Validated.fmap_invalid.calls", &l.take(), &m.errs, || format!("{m:?}"));
    }
    let m = gen_m(K::PVec, r, |r| r.small());
    let p = PersistentVector::<i64>::mk(&m);
    let l = Log::new();
    let l2 = l.clone();
    if let Some(a) = cx.guard("PersistentVector.map", || format!("{m:?}"), || {
        p.map(|x| {
            l2.add(*x);
            g.ap(*x)
        })
    }) {
        cx.eq("PersistentVector.map", &a.view(), &m.map(|x| g.ap(*x)), || format!("{m:?} {g:?}"));
        cx.eq("PersistentVector.map.calls", &l.take(), &m.items, || format!("{m:?}"));
    }
    // pure keeps the value
    let s = r.string();
    if let Some((a, b, b2, d, e2)) = cx.guard("pure", || s.clone(), || {
        (
            <Box<i64> as Pure>::pure(&s),
            <Box<i64> as Pure>::pure_owned(s.clone()),
            s.to_pure::<Vec<String>>(),
            <Option<i64> as Pure>::pure(&s),
            s.clone().to_pure_owned::<Option<String>>(),
        )
    }) {
        cx.eq("pure", &(*a, *b, b2, d, e2), &(s.clone(), s.clone(), vec![s.clone()], Some(s.clone()), Some(s.clone())), || s.clone());
    }
    if let Some((a, b, d)) = cx.guard("pure_ext", || s.clone(), || {
        (
            s.pair_with::<Option<String>, i64>(&x),
            s.lift_other::<Vec<String>, i64>(&x),
            s.combine_with::<Option<String>, i64, String>(&x, |a, b| format!("{a}{b}")),
        )
    }) {
        cx.eq("pure_ext", &(a, b, d), &(Some((s.clone(), x)), vec![x], Some(format!("{s}{x}"))), || s.clone());
    }
    cx.case("inherent", &(x, f, g, &m), true, || format!("{x} {f:?} {m:?}"));
}

fn ext(cx: &mut Ctx, r: &mut Rng) {
    let f = Fun::gen_(r);
    let d = r.small();
    go_ext::<Vec<i64>>(cx, "Vec", f, d, gen_m(K::List, r, |r| r.small()));
    go_ext::<Option<i64>>(cx, "Option", f, d, gen_m(K::Opt, r, |r| r.small()));
    go_ext::<Result<i64, String>>(cx, "Result", f, d, gen_m(K::Res, r, |r| r.small()));
}
fn brief(m: &M<i64>) -> String {
    if m.items.len() + m.errs.len() > 400 { format!("{} items and {} errors", m.items.len(), m.errs.len()) } else { format!("{m:?}") }
}
/// counts beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let (lo, hi) = (250 + r.below(1_200), 65_536 + r.below(3_000));
    let n = if r.chance(1, 2) { lo } else { hi };
    let many = || M::items((0..n as i64).map(|i| i * 7 % 65_521).collect());
    functor_on::<Vec<i64>>(cx, r, "Vec", many());
    functor_on::<Choice<i64>>(cx, r, "Choice", many());
    functor_on::<PersistentVector<i64>>(cx, r, "PersistentVector", many());
    let mut bad = M::items(vec![]);
    bad.errs = (0..n).map(|i| format!("e{i}")).collect();
    functor_on::<Validated<String, i64>>(cx, r, "Validated", bad);
    go_ext::<Vec<i64>>(cx, "Vec", Fun::gen_(r), 5, many());
    cx.count("wide", 1);
}
fn go_ext<S>(cx: &mut Ctx, ty: &str, f: Fun, d: i64, m: M<i64>)
where
    S: Sub<i64> + FunctorExt<Source = i64>,
    S::Output<i64>: Sub<i64>,
{
    {
        let k = S::K;
        let s = S::mk(&m);
        let c = || format!("{ty} {} {f:?} default={d}", brief(&m));
        let tryf = move |x: &i64| -> Result<i64, String> { if f.pred(*x) { Ok(f.ap(*x)) } else { Err(format!("bad{x}")) } };
        let log = Log::new();
        let (l1, l2, l3) = (log.clone(), log.clone(), log.clone());
        let el = Log::<String>::new();
        let e2 = el.clone();
        // both functions write here: the default of an element is computed before the next element
        let order = Log::<String>::new();
        let (o1, o2) = (order.clone(), order.clone());
        let Some((a, b, c3)) = cx.guard(&format!("{ty}.ext"), c, || {
            (
                FunctorExt::filter_map(&s, |x| {
                    l1.add(*x);
                    tryf(x).ok()
                })
                .view(),
                s.try_map_or(d, |x| {
                    l2.add(*x);
                    tryf(x)
                })
                .view(),
                s.try_map_or_else(
                    |e: &String| {
                        e2.add(e.clone());
                        o1.add(e.clone());
                        e.len() as i64
                    },
                    |x| {
                        o2.add(x.to_string());
                        l3.add(*x);
                        tryf(x)
                    },
                )
                .view(),
            )
        }) else {
            return;
        };
        let mut fm = M::items(m.items.iter().filter_map(|x| tryf(x).ok()).collect());
        fm.errs = m.errs.clone();
        if k == K::Res && m.ok() && !fm.ok() {
            fm.errs = vec![String::new()];
        }
        cx.eq(&format!("{ty}.filter_map"), &a, &fm, c);
        cx.eq(&format!("{ty}.try_map_or"), &b, &m.map(|x| tryf(x).unwrap_or(d)), c);
        cx.eq(&format!("{ty}.try_map_or_else"), &c3, &m.map(|x| tryf(x).unwrap_or_else(|e| e.len() as i64)), c);
        let w: Vec<i64> = m.items.iter().chain(&m.items).chain(&m.items).copied().collect();
        cx.eq(&format!("{ty}.ext.calls"), &log.take(), &w, c);
        cx.eq(&format!("{ty}.ext.default_calls"), &el.take(), &m.items.iter().filter_map(|x| tryf(x).err()).collect::<Vec<_>>(), c);
        let wo: Vec<String> = m.items.iter().flat_map(|x| std::iter::once(x.to_string()).chain(tryf(x).err())).collect();
        cx.eq(&format!("{ty}.ext.default_order"), &order.take(), &wo, c);
        cx.case(&format!("ext.{ty}"), &(&m, f, d), true, c);
    }
}

/// State, Reader, Cont, IO: mapped description observed by running it
fn computations(cx: &mut Ctx, r: &mut Rng) {
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    let (h, s0) = (Fun::gen_(r), r.small());
    let n = Arc::new(AtomicU64::new(0));
    let c = || format!("h={h:?} s0={s0} f={f:?} g={g:?}");
    let cnt = |n: &Arc<AtomicU64>| {
        let n = n.clone();
        move |x: i64| {
            n.fetch_add(1, Ordering::Relaxed);
            f.ap(x)
        }
    };
    let st = State::new(move |s: i64| (h.ap(s), h.ap2(s, 1)));
    let (f1, f2) = (cnt(&n), cnt(&n));
    if let Some((id, one, two)) = cx.guard("State.fmap", c, || {
        (
            st.clone().fmap(|x| x).run_state(s0),
            st.clone().fmap(f1).fmap(move |x| g.ap(x)).run_state(s0),
            st.clone().fmap(move |x| g.ap(f2(x))).run_state(s0),
        )
    }) {
        cx.eq("State.identity", &id, &(h.ap(s0), h.ap2(s0, 1)), c);
        cx.eq("State.composition", &one, &(g.ap(f.ap(h.ap(s0))), h.ap2(s0, 1)), c);
        cx.eq("State.composition", &two, &one, c);
        cx.eq("State.calls", &n.swap(0, Ordering::Relaxed), &2, c);
    }
    let rd = Reader::new(move |e: i64| h.ap(e));
    let (f1, f2) = (cnt(&n), cnt(&n));
    if let Some((id, one, two)) = cx.guard("Reader.fmap", c, || {
        (
            rd.fmap(|x| x).run_reader(s0),
            rd.fmap(f1).fmap(move |x| g.ap(x)).run_reader(s0),
            rd.fmap(move |x| g.ap(f2(x))).run_reader(s0),
        )
    }) {
        cx.eq("Reader.laws", &(id, one, two), &(h.ap(s0), g.ap(f.ap(h.ap(s0))), g.ap(f.ap(h.ap(s0)))), c);
        cx.eq("Reader.calls", &n.swap(0, Ordering::Relaxed), &2, c);
    }
    let many = r.below(4) as i64;
    // a computation that calls its continuation `many` times
    let ct = Cont::<i64, i64>::new(move |k| (0..many).map(|i| k(h.ap(s0 + i))).fold(0, |a, b| (a * 31 + b) % 100_003));
    let (f1, f2) = (cnt(&n), cnt(&n));
    let kk = move |x: i64| g.ap2(x, 3);
    let want = |t: &dyn Fn(i64) -> i64| (0..many).map(|i| kk(t(h.ap(s0 + i)))).fold(0, |a, b| (a * 31 + b) % 100_003);
    if let Some((id, one, two)) = cx.guard("Cont.fmap", c, || {
        (
            ct.clone().fmap(|x| x).run(kk),
            ct.clone().fmap(f1).fmap(move |x| g.ap(x)).run(kk),
            ct.clone().fmap(move |x| g.ap(f2(x))).run(kk),
        )
    }) {
        cx.eq("Cont.laws", &(id, one, two), &(want(&|x| x), want(&|x| g.ap(f.ap(x))), want(&|x| g.ap(f.ap(x)))), c);
        cx.eq("Cont.calls", &n.swap(0, Ordering::Relaxed), &(2 * many as u64), c);
    }
    let io = if r.chance(1, 3) { IO::pure(h.ap(s0)) } else { IO::new(move || h.ap(s0)) };
    let pure = io.is_pure();
    let (f1, f2) = (cnt(&n), cnt(&n));
    if let Some((id, one, two)) = cx.guard("IO.fmap", c, || {
        (io.fmap(|x| x).run(), io.fmap(f1).fmap(move |x| g.ap(x)).run(), io.fmap(move |x| g.ap(f2(x))).run())
    }) {
        cx.eq("IO.laws", &(id, one, two), &(h.ap(s0), g.ap(f.ap(h.ap(s0))), g.ap(f.ap(h.ap(s0)))), c);
        let got = n.swap(0, Ordering::Relaxed);
        cx.eq("IO.calls", &got, &2, c);
        let _ = pure;
    }
    cx.case("computation", &(h, s0, f, g, many), true, c);
}
