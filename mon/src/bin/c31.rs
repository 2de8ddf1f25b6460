//! C31: what is put into a container or wrapper is what its accessors, iterators and printed forms give back.
#![allow(deprecated)]
use mon::views::{M, Sub, gen_m};
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IOError;
use rustica::datatypes::maybe::{Maybe, MaybeError};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::error::{ErrorContext, IntoErrorContext};
use rustica::pvec::{PVecError, PersistentVector};
use rustica::traits::identity::Identity;
use rustica::traits::monoid::Monoid;
use rustica::utils::error_utils::AppError;
use rustica::utils::transform_utils::Pipeline;
use std::fmt::Debug;

/// an accessor that must panic exactly when `want` is None
fn partial<T: PartialEq + Debug>(cx: &mut Ctx, sig: &str, want: Option<T>, c: &dyn Fn() -> String, f: impl FnOnce() -> T) {
    let got = quiet(f);
    match (&got, &want) {
        (Ok(g), Some(w)) => cx.eq(sig, g, w, c),
        (Err(_), None) => cx.count("accessor_panics", 1),
        _ => {
            let d = format!("{}\n  got: {got:?}\n  want: {want:?}", c());
            cx.violation(sig, d)
        },
    }
}
fn walk<I: Iterator>(cx: &mut Ctx, r: &mut Rng, sig: &str, it: I, key: impl Fn(I::Item) -> i64, model: &[i64]) {
    cx.count("iterators", 1);
    if let Err(e) = drill(r, it, key, model, false) {
        cx.violation(sig, format!("{model:?}: {e}"));
    }
}
/// writes through every second item an exclusive iterator hands out
fn poke<'a>(it: impl Iterator<Item = &'a mut i64>, only: usize) {
    for (i, x) in it.enumerate() {
        if i == only || i % 2 == 1 {
            *x = x.wrapping_add(1000);
        }
    }
}
fn poked(m: &[i64], only: usize) -> Vec<i64> {
    m.iter().enumerate().map(|(i, x)| if i == only || i % 2 == 1 { x.wrapping_add(1000) } else { *x }).collect()
}
fn wrappers(cx: &mut Ctx, r: &mut Rng) {
    let (x, d) = (r.string(), r.string());
    let n = r.small();
    let there = r.chance(2, 3);
    let o = if there { Some(x.clone()) } else { None };
    let c = || format!("{o:?} {x:?} {n} default {d:?}");
    cx.case("wrapper", &(&o, &x, n, &d), true, c);
    macro_rules! opt {
        ($n:literal, $W:ident) => {{
            let w = $W(o.clone());
            cx.eq(concat!($n, ".from"), &$W::from(x.clone()).0, &Some(x.clone()), c);
            partial(cx, concat!($n, ".unwrap"), o.clone(), &c, || w.unwrap());
            cx.eq(concat!($n, ".unwrap_or"), &w.unwrap_or(d.clone()), &o.clone().unwrap_or(d.clone()), c);
            partial(cx, concat!($n, ".as_ref"), o.clone(), &c, || AsRef::<String>::as_ref(&w).clone());
            partial(cx, concat!($n, ".value"), o.clone(), &c, || w.value().clone());
            partial(cx, concat!($n, ".into_value"), o.clone(), &c, || w.clone().into_value());
            cx.eq(concat!($n, ".try"), &(w.try_value().cloned(), w.clone().try_into_value()), &(o.clone(), o.clone()), c);
            let p = match &o {
                Some(v) => format!("{}(Some({v}))", $n),
                None => format!("{}(None)", $n),
            };
            cx.eq(concat!($n, ".display"), &w.to_string(), &p, c);
            cx.eq(concat!($n, ".empty"), &$W::<String>::empty().0, &None, c);
            cx.eq(concat!($n, ".clone"), &w.clone().0, &o, c);
        }};
    }
    opt!("First", First);
    opt!("Last", Last);
    macro_rules! one {
        ($n:literal, $W:ident) => {{
            let w = $W(n);
            let dn = n.wrapping_add(1);
            let got = [$W::from(n).0, w.unwrap(), w.unwrap_or(dn), *AsRef::<i64>::as_ref(&w), *w.value(), w.clone().into_value(), *w.try_value().unwrap(), w.clone().try_into_value().unwrap(), w.clone().0];
            cx.eq(concat!($n, ".accessors"), &got, &[n; 9], c);
            cx.eq(concat!($n, ".display"), &(w.to_string(), format!("{w:?}")), &(format!("{}({n})", $n), format!("{}({n:?})", $n)), c);
            let s = $W(x.clone());
            cx.eq(concat!($n, ".text"), &(s.unwrap(), s.unwrap_or(d.clone()), s.to_string(), format!("{s:?}")), &(x.clone(), x.clone(), format!("{}({x})", $n), format!("{}({x:?})", $n)), c);
        }};
    }
    one!("Max", Max);
    one!("Min", Min);
    one!("Sum", Sum);
    one!("Product", Product);
    cx.eq("numeric.empty", &(Sum::<i64>::empty().0, Product::<i64>::empty().0, Max::<i64>::empty().0, Min::<i64>::empty().0), &(0, 1, 0, 0), c);
    // Id
    let mut i = Id::new(n);
    cx.eq("id.default", &(Id::<i64>::default(), Id::<String>::default()), &(Id::new(0), Id::new(String::new())), c);
    cx.eq("id.iters", &((&i).into_iter().copied().collect::<Vec<_>>(), i.into_iter().collect::<Vec<_>>()), &(vec![n], vec![n]), c);
    poke((&mut i).into_iter(), 0);
    cx.eq("id.iter_mut", &i.unwrap(), &n.wrapping_add(1000), c);
    // Writer
    let log = r.vec_tail(4);
    let w = Writer::new(log.clone(), n);
    let mut wm = w.clone();
    poke((&mut wm).into_iter(), 0);
    cx.eq("writer.iters", &((&w).into_iter().copied().collect::<Vec<_>>(), w.clone().into_iter().collect::<Vec<_>>()), &(vec![n], vec![n]), c);
    cx.eq("writer.iter_mut", &wm.run(), &(log.clone(), n.wrapping_add(1000)), c);
    cx.eq("writer.accessors", &(w.unwrap(), *w.value(), w.clone().into_value(), w.clone().log(), w.clone().run()), &(n, n, n, log.clone(), (log.clone(), n)), c);
    cx.eq("writer.tell", &(Writer::<Vec<i64>, ()>::tell(log.clone()).run(), Writer::<Vec<i64>, i64>::pure_value(n).run()), &((log, ()), (vec![], n)), c);
    // Maybe, Either, Option, Result
    let on = if there { Some(n) } else { None };
    cx.eq("maybe.make", &(Maybe::some(n), Maybe::<i64>::none()), &(Maybe::Just(n), Maybe::Nothing), c);
    cx.eq("either.make", &(Either::<i64, String>::left(n), Either::<String, i64>::right(n)), &(Either::Left(n), Either::Right(n)), c);
    partial(cx, "option.into_value", on, &c, || Identity::into_value(on));
    partial(cx, "result.into_value", on, &c, || Identity::into_value(on.ok_or(d.clone())));
    let mut e: Either<String, i64> = on.map_or(Either::Left(x.clone()), Either::Right);
    let m: Vec<i64> = on.into_iter().collect();
    walk(cx, r, "either.iter", (&e).into_iter(), |x| *x, &m);
    walk(cx, r, "either.into_iter", e.clone().into_iter(), |x| x, &m);
    poke((&mut e).into_iter(), 0);
    cx.eq("either.iter_mut", &e.clone().into_iter().collect::<Vec<_>>(), &poked(&m, 0), c);
    let mut y = Maybe::from_option(on);
    walk(cx, r, "maybe.iter", y.iter(), |x| *x, &m);
    walk(cx, r, "maybe.ref_iter", (&y).into_iter(), |x| *x, &m);
    walk(cx, r, "maybe.into_iter", y.into_iter(), |x| x, &m);
    poke(y.iter_mut(), 0);
    cx.eq("maybe.iter_mut", &y.to_vec(), &poked(&m, 0), c);
    cx.eq("pipeline", &(Pipeline::new(x.clone()).extract(), Pipeline::new(m.clone()).into_iter().collect::<Vec<_>>()), &(x.clone(), m), c);
}
fn validated(cx: &mut Ctx, r: &mut Rng) {
    let n = r.len_tail(20);
    let es: Vec<i64> = (0..n).map(|_| r.small()).collect();
    let x = r.small();
    let valid = n == 0 || r.chance(1, 3);
    let c = || format!("valid {valid} {x} {es:?}");
    cx.case("validated", &(valid, x, &es), true, c);
    cx.max("validated_errors", n as u64);
    let v: Validated<i64, i64> = if valid { Validated::valid(x) } else { Validated::invalid_vec(es.clone()) };
    let (ok, bad): (Vec<i64>, Vec<i64>) = if valid { (vec![x], vec![]) } else { (vec![], es.clone()) };
    walk(cx, r, "validated.iter", v.iter(), |x| *x, &ok);
    walk(cx, r, "validated.ref_iter", (&v).into_iter(), |x| *x, &ok);
    walk(cx, r, "validated.into_iter", v.clone().into_iter(), |x| x, &ok);
    walk(cx, r, "validated.iter_errors", v.iter_errors(), |x| *x, &bad);
    cx.eq("validated.is", &(v.is_valid(), v.is_invalid()), &(valid, !valid), c);
    cx.eq("validated.errors", &(v.errors(), v.error_slice().to_vec(), v.error_payload().map(|b| b.to_vec())), &(bad.clone(), bad.clone(), if valid { None } else { Some(bad.clone()) }), c);
    cx.eq("validated.as_ref", &(v.as_ref().copied(), v.to_option()), &(ok.first().copied(), ok.first().copied()), c);
    partial(cx, "validated.as_ref_trait", ok.first().copied(), &c, || *AsRef::<i64>::as_ref(&v));
    partial(cx, "validated.value", ok.first().copied(), &c, || *v.value());
    partial(cx, "validated.unwrap", ok.first().copied(), &c, || v.unwrap());
    partial(cx, "validated.unwrap_owned", ok.first().copied(), &c, || v.clone().unwrap_owned());
    partial(cx, "validated.unwrap_invalid", if valid { None } else { Some(bad.clone()) }, &c, || v.unwrap_invalid());
    partial(cx, "validated.unwrap_invalid_owned", if valid { None } else { Some(bad.clone()) }, &c, || v.clone().unwrap_invalid_owned().to_vec());
    cx.eq("validated.into_value", &v.clone().into_value().map_err(|b| b.to_vec()), &if valid { Ok(x) } else { Err(bad.clone()) }, c);
    cx.eq("validated.into_error_payload", &v.clone().into_error_payload().map(|b| b.to_vec()), &if valid { Err(x) } else { Ok(bad.clone()) }, c);
    let mut q = v.clone();
    poke(q.iter_mut(), 0);
    poke((&mut q).into_iter(), 0);
    let at = r.below(n + 1);
    poke(q.iter_errors_mut(), at);
    let want = if valid { (vec![x.wrapping_add(2000)], vec![]) } else { (vec![], poked(&es, at)) };
    cx.eq("validated.iter_mut", &(q.iter().copied().collect::<Vec<_>>(), q.errors()), &want, c);
    let mut q = v.clone();
    walk(cx, r, "validated.iter_errors_mut", q.iter_errors_mut(), |x| *x, &bad);
    if let Some(b) = q.error_buffer_mut() {
        b.push(7);
        b.retain(|e| *e % 2 != 0);
    }
    let want: Vec<i64> = if valid { vec![] } else { es.iter().copied().chain([7]).filter(|e| *e % 2 != 0).collect() };
    cx.eq("validated.error_buffer_mut", &(q.errors(), q.is_valid()), &(want, valid), c);
    // every way of naming the errors, whatever the iterator says about its length
    let lists: Vec<(&str, Vec<i64>)> = vec![
        ("vec", Validated::<i64, ()>::invalid_many(es.clone()).errors()),
        ("filtered", Validated::<i64, ()>::invalid_many(mon::hinted(r, es.clone())).errors()),
        ("unbounded", Validated::<i64, ()>::invalid_many({
            let mut left = es.iter();
            std::iter::from_fn(move || left.next().copied())
        }).errors()),
        ("chained", Validated::<i64, ()>::invalid_many(es.iter().copied().chain(std::iter::empty().filter(|_: &i64| true))).errors()),
    ];
    for (k, l) in lists {
        cx.eq(&format!("validated.invalid_many.{k}"), &l, &es, c);
    }
    let h = r.below(7) as u64;
    partial(cx, "validated.invalid_vec", if n == 0 { None } else { Some(es.clone()) }, &c, || Validated::<i64, ()>::invalid_vec(mon::hinted_as(h, es.clone())).errors());
    if let Some(e) = es.first() {
        cx.eq("validated.invalid", &Validated::<i64, ()>::invalid(*e).errors(), &vec![*e], c);
    }
}
fn choices(cx: &mut Ctx, r: &mut Rng) {
    let n = r.len_tail(24);
    let xs: Vec<i64> = (0..n).map(|_| r.small()).collect();
    let ch: Choice<i64> = match xs.split_first() {
        None => Choice::new_empty(),
        Some((f, rest)) if r.chance(1, 2) => Choice::new(*f, mon::hinted(r, rest.to_vec())),
        _ => xs.iter().copied().collect(),
    };
    let c = || format!("{xs:?}");
    cx.case("choice", &xs, n > 1, c);
    cx.max("choice_elements", n as u64);
    let alts = xs.get(1..).unwrap_or(&[]);
    walk(cx, r, "choice.iter", ch.iter(), |x| *x, &xs);
    walk(cx, r, "choice.ref_iter", (&ch).into_iter(), |x| *x, &xs);
    walk(cx, r, "choice.into_iter", ch.clone().into_iter(), |x| x, &xs);
    walk(cx, r, "choice.iter_alternatives", ch.iter_alternatives(), |x| *x, alts);
    cx.eq("choice.views", &(ch.first().copied(), ch.alternatives().to_vec(), ch.has_alternatives(), ch.len(), ch.is_empty(), ch.to_vec()), &(xs.first().copied(), alts.to_vec(), n > 1, n, n == 0, xs.clone()), c);
    cx.eq("choice.vec", &(Vec::from(ch.clone()), Choice::from(&xs[..]).to_vec(), Choice::from(xs.clone()).to_vec()), &(xs.clone(), xs.clone(), xs.clone()), c);
    partial(cx, "choice.value", xs.first().copied(), &c, || *ch.value());
    partial(cx, "choice.into_value", xs.first().copied(), &c, || ch.clone().into_value());
    let shown = match xs.split_first() {
        None => String::new(),
        Some((f, [])) => f.to_string(),
        Some((f, rest)) => format!("{f} | {}", rest.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")),
    };
    cx.eq("choice.display", &ch.to_string(), &shown, c);
    // a default choice is the empty one (the neutral element)
    cx.eq("choice.default", &Choice::<i64>::default().to_vec(), &Vec::<i64>::new(), c);
    // persistent vectors print and iterate like lists
    let pv: PersistentVector<i64> = xs.iter().copied().collect();
    // (long ones only give their length: a summary by design)
    let shown = format!("{pv:?}");
    cx.eq("pvec.debug_mentions_all", &if xs.len() > 64 { shown.contains(&xs.len().to_string()) } else { true }, &true, c);
    cx.eq("pvec.debug_mentions_all", &xs.iter().take(if xs.len() > 64 { 0 } else { 64 }).all(|x| shown.contains(&x.to_string())), &true, c);
    walk(cx, r, "pvec.iter", pv.iter(), |x| *x, &xs);
}
fn errors(cx: &mut Ctx, r: &mut Rng) {
    let (s, t) = (r.string(), r.string());
    let (a, b) = (r.below(1000), r.below(1000));
    let c = || format!("{s:?} {t:?} {a} {b}");
    cx.case("error", &(&s, &t, a, b), true, c);
    cx.eq("io_error.display", &(IOError::ValueNotSet.to_string(), IOError::Other(s.clone()).to_string()), &("Value not set".to_string(), format!("IO Error: {s}")), c);
    cx.eq("maybe_error.display", &MaybeError::Custom(s.clone()).to_string(), &s, c);
    cx.check("maybe_error.says_nothing", MaybeError::ValueNotPresent.to_string().contains("Nothing"), c);
    let p = PVecError::IndexOutOfBounds { index: a, len: b }.to_string();
    cx.eq("pvec_error.index", &p, &format!("Index {a} out of bounds for vector of length {b}"), c);
    let p = PVecError::InvalidRange { start: a, end: b }.to_string();
    cx.eq("pvec_error.range", &p, &format!("Invalid range: start {a} is greater than end {b}"), c);
    // the errors the vector itself raises name the index and the length it had
    let v: PersistentVector<usize> = (0..b % 50).collect();
    let got = v.try_get(a).map_err(|e| e.to_string()).copied();
    let want = if a < v.len() { Ok(a) } else { Err(format!("Index {a} out of bounds for vector of length {}", v.len())) };
    cx.eq("pvec.try_get", &got, &want, c);
    let ec = ErrorContext::new(s.clone());
    cx.eq("error_context", &(ec.message().to_string(), ec.to_string(), s.clone().into_error_context(), s.as_str().into_error_context(), ec.clone().into_error_context()), &(s.clone(), s.clone(), ec.clone(), ec.clone(), ec.clone()), c);
    let (e0, e1) = (AppError::<String, String>::new(s.clone()), AppError::with_context(s.clone(), t.clone()));
    cx.eq("app_error.display", &(e0.to_string(), e1.to_string()), &(format!("{s:?}"), format!("{s:?} (Context: {t:?})")), c);
    cx.eq("app_error.parts", &(e0.message(), e0.context(), e1.message(), e1.context()), &(&s, None, &s, Some(&t)), c);
}
/// building a container from its parts and reading the parts back, for every container type
fn parts(cx: &mut Ctx, r: &mut Rng) {
    macro_rules! ty {
        ($name:expr, $t:ident) => {{
            let m: M<i64> = gen_m(<$t<i64> as Sub<i64>>::K, r, |r| r.small());
            let s = <$t<i64> as Sub<i64>>::mk(&m);
            let copy = s.clone();
            drop(s);
            let back = copy.view();
            cx.eq(concat!($name, ".clone_view"), &back, &m, || format!("{m:?}"));
            cx.case(concat!("parts.", $name), &m, true, || format!("{m:?}"));
        }};
    }
    type Val<T> = Validated<String, T>;
    type Eit<T> = Either<String, T>;
    type Wri<T> = Writer<Vec<String>, T>;
    ty!("Choice", Choice);
    ty!("Validated", Val);
    ty!("Either", Eit);
    ty!("Writer", Wri);
    ty!("Maybe", Maybe);
    ty!("PVec", PersistentVector);
}

fn main() {
    main_with("C31", |cx| {
        cx.rule = "a container or wrapper with random content, read back through every accessor, iterator and printed form; counted once per distinct content".into();
        mon::shapes::rounds(cx);
        cx.assumptions = vec!["an accessor on an absent value panics (documented)".into()];
        for (k, n) in [("cases.wrapper", 5_000), ("cases.validated", 5_000), ("cases.choice", 3_000), ("cases.error", 5_000), ("accessor_panics", 5_000), ("iterators", 50_000)] {
            cx.require(k, n);
        }
        let n = cx.n(12_000, 1_200_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                for (s, f) in [("wrappers", wrappers as fn(&mut Ctx, &mut Rng)), ("validated", validated), ("choices", choices), ("errors", errors), ("parts", parts)] {
                    let seed = r.u64();
                    if let Err(p) = quiet(|| f(cx, &mut Rng::new(seed))) {
                        cx.violation(format!("{s}.panic"), format!("seed {seed}: {} at {}", p.msg, p.loc));
                    }
                }
            }
        });
    });
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let c = || format!("{n} elements");
    cx.case("wide", &(n, few), true, c);
    let xs: Vec<i64> = (0..n as i64).map(|i| i * 31 % 257).collect();
    let ch: Choice<i64> = xs.iter().copied().collect();
    walk(cx, r, "wide.choice.iter", ch.iter(), |x| *x, &xs);
    walk(cx, r, "wide.choice.into_iter", ch.clone().into_iter(), |x| x, &xs);
    walk(cx, r, "wide.choice.alternatives", ch.iter_alternatives(), |x| *x, &xs[1..]);
    cx.check("wide.choice.lists", ch.to_vec() == xs && Vec::from(ch.clone()) == xs && ch.len() == n && ch.alternatives() == &xs[1..], c);
    let v: Validated<i64, i64> = Validated::invalid_vec(xs.clone());
    walk(cx, r, "wide.validated.iter_errors", v.iter_errors(), |x| *x, &xs);
    cx.check("wide.validated.errors", v.errors() == xs && v.error_slice() == xs && v.unwrap_invalid() == xs, c);
    let pv: PersistentVector<i64> = xs.iter().copied().collect();
    walk(cx, r, "wide.pvec.iter", pv.iter(), |x| *x, &xs);
}
