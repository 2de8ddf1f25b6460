//! C15: conversions between result-like types, accessors, both-side mapping.
#![allow(deprecated)]
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::{Maybe, MaybeError, MaybeExt};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::error::{self as er, ComposableError, WithError};
use rustica::prelude::traits::Bifunctor;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::identity::Identity;
use rustica::utils::error_utils as eu;
use smallvec::SmallVec;

type R = Result<i64, String>;
type E = Either<String, i64>;
type V = Validated<String, i64>;
fn e(x: &R) -> E {
    match x {
        Ok(v) => Either::Right(*v),
        Err(e) => Either::Left(e.clone()),
    }
}
fn v(x: &R) -> V {
    match x {
        Ok(v) => Validated::Valid(*v),
        Err(e) => Validated::Invalid(SmallVec::from_vec(vec![e.clone()])),
    }
}
fn m(x: &Option<i64>) -> Maybe<i64> {
    match x {
        Some(v) => Maybe::Just(*v),
        None => Maybe::Nothing,
    }
}
fn gen_r(r: &mut Rng) -> R {
    if r.chance(1, 2) { Ok(r.small()) } else { Err(r.string()) }
}
/// runs an accessor that must panic exactly when `want` is None
fn partial<T: PartialEq + std::fmt::Debug>(cx: &mut Ctx, sig: &str, want: Option<T>, c: &dyn Fn() -> String, f: impl FnOnce() -> T) {
    let got = quiet(f);
    match (&got, &want) {
        (Ok(g), Some(w)) => cx.eq(sig, g, w, c),
        (Err(_), None) => cx.count("accessor_panics", 1),
        _ => {
            let d = format!("{}\n  got: {got:?}\n  want: {want:?}", c());
            cx.violation(sig, d)
        },
    }
}
fn two_sided(cx: &mut Ctx, r: &mut Rng) {
    let x = gen_r(r);
    let (f, d, ds) = (Fun::gen_(r), r.small(), r.string());
    let c = || format!("{x:?} default {d} / {ds:?}");
    cx.case("result_either_validated", &(&x, f, d), true, c);
    // every conversion, in every notation the library offers
    let res: Vec<(&str, R)> = vec![
        ("either_to_result", er::either_to_result(e(&x))),
        ("utils.either_to_result", eu::either_to_result(e(&x))),
        ("either.to_result", Either::to_result(e(&x))),
        ("validated_to_result", er::validated_to_result(v(&x))),
        ("validated.to_result", Validated::to_result(&v(&x))),
        ("validated.to_result_owned", v(&x).to_result_owned()),
        ("with_error.result", WithError::to_result(x.clone())),
        ("with_error.either", WithError::to_result(e(&x))),
        ("with_error.validated", WithError::to_result(v(&x))),
        ("flatten_composable", er::flatten_composable_result(er::wrap_in_composable_result(x.clone()))),
        ("boxed_composable", er::wrap_in_composable_result_boxed(x.clone()).map_err(|b| b.core_error.clone())),
        ("either_back", er::either_to_result(er::result_to_either(x.clone()))),
        ("validated_back", er::validated_to_result(er::result_to_validated(x.clone()))),
        ("through_all", er::either_to_result(er::validated_to_either(er::either_to_validated(er::result_to_either(x.clone()))))),
        ("split", er::split_validated_errors(v(&x)).into_iter().next().unwrap_or(Err("nothing".into()))),
        ("into_value", v(&x).into_value().map_err(|es| es.to_vec().join("|"))),
        ("into_error_payload", match v(&x).into_error_payload() {
            Ok(es) => Err(es.to_vec().join("|")),
            Err(v) => Ok(v),
        }),
    ];
    for (n, g) in res {
        cx.eq(&format!("to_result.{n}"), &g, &x, c);
    }
    let eit: Vec<(&str, E)> = vec![
        ("result_to_either", er::result_to_either(x.clone())),
        ("utils.result_to_either", eu::result_to_either(x.clone())),
        ("from_result", Either::from_result(x.clone())),
        ("validated_to_either", er::validated_to_either(v(&x))),
        ("ext.to_either", eu::ResultExt::to_either(x.clone())),
        ("back", Either::from_result(e(&x).to_result())),
        ("through_validated", er::validated_to_either(er::either_to_validated(e(&x)))),
    ];
    for (n, g) in eit {
        cx.eq(&format!("to_either.{n}"), &g, &e(&x), c);
    }
    let val: Vec<(&str, V)> = vec![
        ("result_to_validated", er::result_to_validated(x.clone())),
        ("either_to_validated", er::either_to_validated(e(&x))),
        ("from_result", Validated::from_result(&x)),
        ("from_result_owned", Validated::from_result_owned(x.clone())),
        ("ext.to_validated", eu::ResultExt::to_validated(x.clone())),
        ("back", er::result_to_validated(er::validated_to_result(v(&x)))),
        ("from_option", Validated::from_option(&x.clone().ok(), &x.clone().err().unwrap_or_default())),
    ];
    for (n, g) in val {
        cx.eq(&format!("to_validated.{n}"), &g, &v(&x), c);
    }
    // accessors of Either
    let ok = x.clone().ok();
    let er_ = x.clone().err();
    cx.eq("either.is", &(e(&x).is_left(), e(&x).is_right()), &(x.is_err(), x.is_ok()), c);
    cx.eq("either.right_option", &e(&x).right_option(), &ok, c);
    cx.eq("either.left_option", &e(&x).left_option(), &er_, c);
    cx.eq("either.right_or", &e(&x).right_or(d), &ok.unwrap_or(d), c);
    cx.eq("either.unwrap_or", &e(&x).unwrap_or(d), &ok.unwrap_or(d), c);
    cx.eq("either.left_or", &e(&x).left_or(ds.clone()), &er_.clone().unwrap_or(ds.clone()), c);
    partial(cx, "either.unwrap", ok, &c, || e(&x).unwrap());
    partial(cx, "either.unwrap_right", ok, &c, || e(&x).unwrap_right());
    partial(cx, "either.right_value", ok, &c, || e(&x).right_value());
    partial(cx, "either.right_ref", ok, &c, || *e(&x).right_ref());
    partial(cx, "either.unwrap_left", er_.clone(), &c, || e(&x).unwrap_left());
    partial(cx, "either.left_value", er_.clone(), &c, || e(&x).left_value());
    partial(cx, "either.left_ref", er_.clone(), &c, || e(&x).left_ref().clone());
    partial(cx, "either.left_mut", er_.as_ref().map(|s| format!("{s}!")), &c, || {
        let mut q = e(&x);
        q.left_mut().push('!');
        q.left_value()
    });
    let mut q = e(&x);
    let (a, b, g) = (
        q.clone().into_iter().collect::<Vec<_>>(),
        (&q).into_iter().copied().collect::<Vec<_>>(),
        (&mut q).into_iter().map(|v| {
            *v += 1;
            *v - 1
        }).collect::<Vec<_>>(),
    );
    let want: Vec<i64> = ok.into_iter().collect();
    cx.eq("either.iter", &[a, b, g], &[want.clone(), want.clone(), want], c);
    cx.eq("either.iter_mut.effect", &q.right_option(), &ok.map(|v| v + 1), c);
    let mut q = e(&x);
    let l = [q.clone().left_iter().collect::<Vec<_>>(), q.left_iter_ref().cloned().collect(), q.left_iter_mut().map(|s| {
        let o = s.clone();
        s.push('?');
        o
    }).collect()];
    let want: Vec<String> = er_.iter().cloned().collect();
    cx.eq("either.left_iters", &l, &[want.clone(), want.clone(), want], c);
    cx.eq("either.left_iter_mut.effect", &q.left_option(), &er_.as_ref().map(|s| format!("{s}?")), c);
    // mapping exactly the named side
    let calls: Log<i64> = Log::new();
    let rf = |v: i64| {
        calls.add(v);
        f.ap(v)
    };
    let lcalls: Log<String> = Log::new();
    let lf = |s: String| {
        lcalls.add(s.clone());
        s.len() as i64
    };
    let no: (Vec<i64>, Vec<String>) = (vec![], vec![]);
    let w: (Vec<i64>, Vec<String>) = (ok.into_iter().collect(), er_.iter().cloned().collect());
    let mapped_r = x.clone().map(|v| f.ap(v));
    let mapped_l = x.clone().map_err(|s| s.len() as i64);
    let both = mapped_r.clone().map_err(|s| s.len() as i64);
    let el = |x: &Result<i64, i64>| match x {
        Ok(v) => Either::<i64, i64>::Right(*v),
        Err(e) => Either::Left(*e),
    };
    let vl = |x: &Result<i64, i64>| match x {
        Ok(v) => Validated::<i64, i64>::Valid(*v),
        Err(e) => Validated::Invalid(SmallVec::from_vec(vec![*e])),
    };
    let seen = |cx: &mut Ctx, sig: &str, right: bool, left: bool| {
        let want = (if right { w.0.clone() } else { no.0.clone() }, if left { w.1.clone() } else { no.1.clone() });
        cx.eq(&format!("{sig}.calls"), &(calls.take(), lcalls.take()), &want, c);
    };
    cx.eq("map.either.fmap_right", &e(&x).fmap_right(rf), &e(&mapped_r), c);
    seen(cx, "map.either.fmap_right", true, false);
    cx.eq("map.either.fmap_left", &e(&x).fmap_left(lf), &el(&mapped_l), c);
    seen(cx, "map.either.fmap_left", false, true);
    cx.eq("map.either.first", &Bifunctor::first(&e(&x), |v| rf(*v)), &e(&mapped_r), c);
    seen(cx, "map.either.first", true, false);
    cx.eq("map.either.second", &Bifunctor::second(&e(&x), |s: &String| lf(s.clone())), &el(&mapped_l), c);
    seen(cx, "map.either.second", false, true);
    cx.eq("map.either.bimap", &e(&x).bimap(|v| rf(*v), |s: &String| lf(s.clone())), &el(&both), c);
    seen(cx, "map.either.bimap", true, true);
    cx.eq("map.either.map_second", &e(&x).map_second(|s| lf(s.clone())), &el(&mapped_l), c);
    seen(cx, "map.either.map_second", false, true);
    cx.eq("map.either.map_second_owned", &e(&x).map_second_owned(lf), &el(&mapped_l), c);
    seen(cx, "map.either.map_second_owned", false, true);
    cx.eq("map.validated.first", &Bifunctor::first(&v(&x), |v| rf(*v)), &v(&mapped_r), c);
    seen(cx, "map.validated.first", true, false);
    cx.eq("map.validated.second", &Bifunctor::second(&v(&x), |s: &String| lf(s.clone())), &vl(&mapped_l), c);
    seen(cx, "map.validated.second", false, true);
    cx.eq("map.validated.bimap", &v(&x).bimap(|v| rf(*v), |s: &String| lf(s.clone())), &vl(&both), c);
    seen(cx, "map.validated.bimap", true, true);
    cx.eq("map.result_ext.bimap", &eu::ResultExt::bimap(x.clone(), rf, lf), &both, c);
    seen(cx, "map.result_ext.bimap", true, true);
    cx.eq("result_ext.unwrap_or_default", &eu::ResultExt::unwrap_or_default(x.clone()), &ok.unwrap_or(0), c);
    // composable errors
    let code = r.u64() as u32;
    let ce = ComposableError::with_code(ds.clone(), code).with_context("outer".to_string());
    cx.eq("composable_to_core", &er::composable_to_core(ce.clone()), &ds, c);
    cx.eq("core_to_composable", &er::core_to_composable(ds.clone()), &ComposableError::new(ds.clone()), c);
    cx.eq("composable.from", &ComposableError::from(ds.clone()), &ComposableError::new(ds.clone()), c);
    let mc = ce.clone().map_core(|s: String| (s, 1));
    cx.eq("composable.map_core", &(mc.core_error.clone(), mc.context(), mc.error_code()), &((ds.clone(), 1), vec!["outer".to_string()], Some(code)), c);
}
/// several errors: the documented lossy direction keeps the first one
fn many_errors(cx: &mut Ctx, r: &mut Rng) {
    let n = 1 + mon::views::some_len(r, 20);
    let equal = r.chance(1, 3);
    let es: Vec<String> = (0..n).map(|i| if equal { r.string() } else { format!("e{i}{}", r.string()) }).collect();
    let x: V = Validated::Invalid(SmallVec::from_vec(es.clone()));
    let c = || format!("{es:?}");
    cx.case("many_errors", &es, n > 1, c);
    cx.max("errors", n as u64);
    let first: R = Err(es[0].clone());
    cx.eq("first_error.to_result", &Validated::to_result(&x), &first, c);
    cx.eq("first_error.to_result_owned", &x.clone().to_result_owned(), &first, c);
    cx.eq("first_error.validated_to_result", &er::validated_to_result(x.clone()), &first, c);
    cx.eq("first_error.validated_to_either", &er::validated_to_either(x.clone()), &e(&first), c);
    cx.eq("first_error.with_error", &WithError::to_result(x.clone()), &first, c);
    cx.eq("all_errors.split", &er::split_validated_errors(x.clone()), &es.iter().map(|s| Err(s.clone())).collect::<Vec<R>>(), c);
    cx.eq("all_errors.collect", &er::collect_errors(mon::hinted(r, es.clone())).errors(), &es, c);
    cx.eq("all_errors.fmap_error", &WithError::fmap_error(x.clone(), |s: String| s + "x").errors(), &es.iter().map(|s| format!("{s}x")).collect::<Vec<_>>(), c);
    cx.eq("no_errors.collect", &er::collect_errors(Vec::<String>::new()).is_valid(), &true, c);
    // collecting what was split gives the same errors back
    let back = er::collect_errors(er::split_validated_errors(x.clone()).into_iter().filter_map(|r| r.err()));
    cx.eq("all_errors.round_trip", &back.errors(), &es, c);
}
fn optional(cx: &mut Ctx, r: &mut Rng) {
    let x = if r.chance(2, 3) { Some(r.small()) } else { None };
    let (d, s, f) = (r.small(), r.string(), Fun::gen_(r));
    let c = || format!("{x:?} {d} {s:?} {f:?}");
    cx.case("maybe_option", &(x, d, &s, f), true, c);
    let res = x.ok_or(s.clone());
    let ms: Vec<(&str, Maybe<i64>)> = vec![
        ("from_option", Maybe::from_option(x)),
        ("from", Maybe::from(x)),
        ("when", Maybe::when(x.is_some(), x.unwrap_or(0))),
        ("from_iter", x.into_iter().collect()),
        ("from_result", Maybe::from(res.clone())),
        ("back", Maybe::from_option(m(&x).to_option())),
        ("back2", Maybe::from(Option::from(m(&x)))),
        ("tap", m(&x).tap(|_| ())),
        ("fmap_error", WithError::<MaybeError>::fmap_error(m(&x), |_| 1)),
        ("clone", m(&x).clone()),
    ];
    for (n, g) in ms {
        cx.eq(&format!("to_maybe.{n}"), &g, &m(&x), c);
    }
    // first of several
    let xs = r.vec_tail(4);
    cx.eq("to_maybe.first_of_iter", &mon::hinted(r, xs.clone()).collect::<Maybe<i64>>(), &m(&xs.first().copied()), c);
    cx.eq("maybe.to_option", &m(&x).to_option(), &x, c);
    cx.eq("maybe.into_option", &Option::<i64>::from(m(&x)), &x, c);
    cx.eq("maybe.as_ref", &(m(&x).as_ref().copied(), m(&x).as_option().copied()), &(x, x), c);
    cx.eq("maybe.to_vec", &m(&x).to_vec(), &x.into_iter().collect::<Vec<_>>(), c);
    cx.eq("maybe.to_result", &m(&x).to_result(s.clone()), &res, c);
    cx.eq("maybe.ext.to_result", &MaybeExt::to_result(m(&x), s.clone()), &res, c);
    cx.eq("maybe.to_standard_result", &m(&x).to_standard_result(), &x.ok_or(MaybeError::ValueNotPresent), c);
    cx.eq("maybe.with_error", &WithError::<MaybeError>::to_result(m(&x)), &x.ok_or(MaybeError::ValueNotPresent), c);
    cx.eq("maybe.try_unwrap", &m(&x).try_unwrap().ok(), &x, c);
    cx.eq("maybe.ext.try_unwrap", &MaybeExt::try_unwrap(m(&x)).ok(), &x, c);
    cx.eq("maybe.is", &(m(&x).is_just(), m(&x).is_nothing()), &(x.is_some(), x.is_none()), c);
    cx.eq("maybe.unwrap_or", &m(&x).unwrap_or(d), &x.unwrap_or(d), c);
    let calls = Log::<i64>::new();
    cx.eq("maybe.unwrap_or_else", &m(&x).unwrap_or_else(|| {
        calls.add(d);
        d
    }), &x.unwrap_or(d), c);
    cx.eq("maybe.unwrap_or_else.calls", &calls.take().len(), &(x.is_none() as usize), c);
    cx.eq("maybe.fmap_or", &m(&x).fmap_or(d, |v| f.ap(v)), &x.map_or(d, |v| f.ap(v)), c);
    cx.eq("maybe.filter", &m(&x).filter(|v| f.pred(*v)), &m(&x.filter(|v| f.pred(*v))), c);
    let t = m(&x).tap(|v| calls.add(*v));
    cx.eq("maybe.tap", &(t, calls.take()), &(m(&x), x.into_iter().collect::<Vec<_>>()), c);
    partial(cx, "maybe.unwrap", x, &c, || m(&x).unwrap());
    let mut q = m(&x);
    let it = [q.iter().copied().collect::<Vec<_>>(), (&q).into_iter().copied().collect(), q.into_iter().collect(), (&mut q).into_iter().map(|v| {
        *v += 1;
        *v - 1
    }).collect()];
    let w: Vec<i64> = x.into_iter().collect();
    cx.eq("maybe.iters", &it, &[w.clone(), w.clone(), w.clone(), w], c);
    q.iter_mut().for_each(|v| *v += 1);
    cx.eq("maybe.iter_mut", &q, &m(&x.map(|v| v + 2)), c);
    cx.eq("maybe.default", &Maybe::<i64>::default(), &Maybe::Nothing, c);
    // options into validated
    cx.eq("option.to_validated", &Validated::from_option_owned(x, s.clone()), &v(&res), c);
    cx.eq("validated.to_option", &v(&res).to_option(), &x, c);
    cx.eq("validated.as_ref", &Validated::as_ref(&v(&res)).copied(), &x, c);
    cx.eq("validated.unwrap_or", &v(&res).unwrap_or(&d), &x.unwrap_or(d), c);
    partial(cx, "validated.unwrap", x, &c, || v(&res).unwrap());
    partial(cx, "validated.unwrap_owned", x, &c, || v(&res).unwrap_owned());
    partial(cx, "validated.unwrap_invalid", res.clone().err().map(|s| vec![s]), &c, || v(&res).unwrap_invalid());
    partial(cx, "validated.unwrap_invalid_owned", res.clone().err().map(|s| vec![s]), &c, || v(&res).unwrap_invalid_owned().to_vec());
    // the common accessor trait
    partial(cx, "identity.maybe.value", x, &c, || *m(&x).value());
    partial(cx, "identity.maybe.into_value", x, &c, || Identity::into_value(m(&x)));
    partial(cx, "identity.option.value", x, &c, || *x.value());
    partial(cx, "identity.result.value", x, &c, || *res.value());
    partial(cx, "identity.either.value", x, &c, || *e(&res).value());
    partial(cx, "identity.either.into_value", x, &c, || Identity::into_value(e(&res)));
    partial(cx, "identity.validated.value", x, &c, || *v(&res).value());
    cx.eq("identity.try.maybe", &(m(&x).try_value().copied(), m(&x).try_into_value()), &(x, x), c);
    cx.eq("identity.try.option", &(x.try_value().copied(), x.try_into_value()), &(x, x), c);
    cx.eq("identity.try.result", &(res.try_value().copied(), res.clone().try_into_value()), &(x, x), c);
    cx.eq("identity.try.either", &(e(&res).try_value().copied(), e(&res).try_into_value()), &(x, x), c);
    cx.eq("identity.try.validated", &(v(&res).try_value().copied(), v(&res).try_into_value()), &(x, x), c);
    // Id wraps and unwraps unchanged
    let i = Id::new(s.clone());
    cx.eq("id.unwraps", &[i.clone().into_inner(), i.clone().unwrap(), i.clone().unwrap_or("z".into()), i.value().clone(), Identity::into_value(i.clone()), i.as_ref().clone(), Id::from(s.clone()).unwrap(), Id::from_ref(&s).unwrap()], &std::array::from_fn(|_| s.clone()), c);
    let mut im = i.clone();
    im.value_mut().push('!');
    cx.eq("id.value_mut", &(im.clone().unwrap(), im == i, i.value().clone()), &(format!("{s}!"), false, s.clone()), c);
    cx.eq("id.then", &i.then(Id::new(d)), &Id::new(d), c);
    // Choice to and from lists
    let ch: Choice<i64> = xs.clone().into();
    cx.eq("choice.round_trip", &Vec::from(ch.clone()), &xs, c);
    let (f0, ff, fl) = (xs.first().copied(), First(x), Last(x));
    cx.eq("identity.try.choice", &(ch.try_value().copied(), ch.clone().try_into_value()), &(f0, f0), c);
    cx.eq("identity.try.first", &(ff.try_value().copied(), ff.try_into_value()), &(x, x), c);
    cx.eq("identity.try.last", &(fl.try_value().copied(), fl.try_into_value()), &(x, x), c);
    cx.eq("identity.wrappers", &[*Sum(d).value(), *Min(d).value(), *Max(d).value(), *Product(d).value(), Sum(d).into_value(), Min(d).into_value(), Max(d).into_value(), Product(d).into_value()], &[d; 8], c);
    cx.eq("identity.try.wrappers", &[Sum(d).try_value().copied(), Min(d).try_into_value(), Writer::<Vec<i64>, i64>::new(vec![], d).try_value().copied()], &[Some(d); 3], c);
    cx.eq("choice.first", &ch.first().copied(), &xs.first().copied(), c);
}

fn main() {
    main_with("C15", |cx| {
        cx.rule = "a value of each result-like type together with defaults and function codes, counted once per distinct combination; lists of errors counted from two errors on".into();
        mon::shapes::rounds(cx);
        cx.assumptions = vec!["converting several errors into a type with room for one keeps the first (documented)".into()];
        for (k, n) in [("cases.result_either_validated", 5_000), ("cases.many_errors", 1_000), ("cases.maybe_option", 5_000), ("accessor_panics", 1_000)] {
            cx.require(k, n);
        }
        let n = cx.n(15_000, 1_500_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                two_sided(cx, &mut r);
                many_errors(cx, &mut r);
                optional(cx, &mut r);
            }
        });
    });
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let c = || format!("{n} errors");
    cx.case("wide", &(n, few), true, c);
    let es: Vec<String> = (0..n).map(|i| format!("e{i}")).collect();
    let x: V = Validated::invalid_many(es.clone());
    cx.check("wide.split", er::split_validated_errors(x.clone()) == es.iter().map(|s| Err(s.clone())).collect::<Vec<R>>(), c);
    cx.check("wide.collect", er::collect_errors(es.clone()).errors() == es, c);
    cx.eq("wide.first", &(er::validated_to_result(x.clone()), WithError::to_result(x.clone())), &(Err("e0".into()), Err("e0".into())), c);
    cx.check("wide.fmap_error", WithError::fmap_error(x, |s: String| s.len()).errors() == es.iter().map(|s| s.len()).collect::<Vec<_>>(), c);
    let ch: Choice<i64> = (0..n as i64).collect();
    cx.check("wide.choice", Vec::from(ch) == (0..n as i64).collect::<Vec<_>>(), c);
}
