//! C28: throwing, catching and recovering act exactly on failures.
#![allow(deprecated)]
use mon::*;
use rustica::datatypes::either::Either;
use rustica::datatypes::maybe::{Maybe, MaybeError};
use rustica::datatypes::validated::Validated;
use rustica::error::{AppError, BoxedComposableResult, ComposableError, ComposableResult, ErrorCategory, ErrorOps, WithError, error, error_with_context};
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use smallvec::SmallVec;

type R = Result<i64, String>;
type E = Either<String, i64>;
type V = Validated<String, i64>;
fn e(x: &R) -> E {
    match x {
        Ok(v) => Either::Right(*v),
        Err(e) => Either::Left(e.clone()),
    }
}
fn v(x: &R) -> V {
    match x {
        Ok(v) => Validated::Valid(*v),
        Err(e) => Validated::Invalid(SmallVec::from_vec(vec![e.clone()])),
    }
}
/// A program over one fallible value. Every handler and continuation logs what it was given.
#[derive(Clone, Debug, Hash)]
enum Op {
    Throw(u32),
    Catch(u32, bool),
    Bind(u32, Fun, bool),
    Map(u32, Fun),
    MapErr(u32),
    Recover(u32, bool),
}
fn gen_ops(r: &mut Rng) -> Vec<Op> {
    let n = mon::views::some_len(r, 10);
    (0..n as u32)
        .map(|t| match r.below(7) {
            0 => Op::Throw(t),
            1 | 2 => Op::Catch(t, r.chance(1, 2)),
            3 => Op::Bind(t, Fun::gen_(r), r.chance(2, 3)),
            4 => Op::Map(t, Fun::gen_(r)),
            5 => Op::MapErr(t),
            _ => Op::Recover(t, r.chance(1, 2)),
        })
        .collect()
}
type L = Log<(u32, String)>;
fn model(start: &R, ops: &[Op]) -> (R, Vec<(u32, String)>) {
    let (mut x, mut ev) = (start.clone(), vec![]);
    for op in ops {
        x = match (op, x) {
            (Op::Throw(t), _) => Err(format!("t{t}")),
            (Op::Catch(t, ok) | Op::Recover(t, ok), Err(er)) => {
                ev.push((*t, er.clone()));
                if *ok { Ok(*t as i64) } else { Err(format!("{er}h{t}")) }
            },
            (Op::Bind(t, f, ok), Ok(a)) => {
                ev.push((*t, a.to_string()));
                if *ok { Ok(f.ap(a)) } else { Err(format!("b{t}")) }
            },
            (Op::Map(t, f), Ok(a)) => {
                ev.push((*t, a.to_string()));
                Ok(f.ap(a))
            },
            (Op::MapErr(t), Err(er)) => {
                ev.push((*t, er.clone()));
                Err(format!("{er}m{t}"))
            },
            (_, x) => x,
        }
    }
    (x, ev)
}
fn run_result(start: &R, ops: &[Op], owned: bool, log: &L) -> R {
    let mut x = start.clone();
    for op in ops {
        x = match op {
            Op::Throw(t) => <R as MonadError<String>>::throw(format!("t{t}")),
            Op::Catch(t, ok) => {
                let h = |er: String| {
                    log.add((*t, er.clone()));
                    if *ok { Ok(*t as i64) } else { Err(format!("{er}h{t}")) }
                };
                if owned { x.catch_owned(h) } else { x.catch(|er: &String| h(er.clone())) }
            },
            Op::Recover(t, ok) => x.recover(|er| {
                log.add((*t, er.clone()));
                if *ok { Ok(*t as i64) } else { Err(format!("{er}h{t}")) }
            }),
            Op::Bind(t, f, ok) => {
                let k = |a: i64| {
                    log.add((*t, a.to_string()));
                    if *ok { Ok(f.ap(a)) } else { Err(format!("b{t}")) }
                };
                if owned { x.bind_owned(k) } else { x.bind(|a| k(*a)) }
            },
            Op::Map(t, f) => x.map(|a| {
                log.add((*t, a.to_string()));
                f.ap(a)
            }),
            Op::MapErr(t) => {
                let m = |er: String| {
                    log.add((*t, er.clone()));
                    format!("{er}m{t}")
                };
                match t % 3 {
                    0 => x.map_error_to(|er| m(er.clone())),
                    1 => x.map_error_to_owned(m),
                    _ => WithError::fmap_error(x, m),
                }
            },
        }
    }
    x
}
fn run_either(start: &R, ops: &[Op], log: &L) -> R {
    let mut x = e(start);
    for op in ops {
        x = match op {
            Op::Throw(t) => <Either<String, ()> as ErrorCategory<String>>::handle_error::<i64>(format!("t{t}")),
            Op::Catch(t, ok) | Op::Recover(t, ok) => x.recover(|er| {
                log.add((*t, er.clone()));
                if *ok { <Either<String, ()> as ErrorCategory<String>>::lift(*t as i64) } else { Either::Left(format!("{er}h{t}")) }
            }),
            Op::Bind(t, f, ok) => {
                let k = |a: i64| {
                    log.add((*t, a.to_string()));
                    if *ok { Either::Right(f.ap(a)) } else { Either::Left(format!("b{t}")) }
                };
                if t % 2 == 0 { x.bind_owned(k) } else { x.bind(|a| k(*a)) }
            },
            Op::Map(t, f) => x.fmap_right(|a| {
                log.add((*t, a.to_string()));
                f.ap(a)
            }),
            Op::MapErr(t) => WithError::fmap_error(x, |er: String| {
                log.add((*t, er.clone()));
                format!("{er}m{t}")
            }),
        }
    }
    x.to_result()
}
fn run_validated(start: &R, ops: &[Op], log: &L) -> R {
    let mut x = v(start);
    for op in ops {
        x = match op {
            Op::Throw(t) => <Validated<String, ()> as ErrorCategory<String>>::handle_error::<i64>(format!("t{t}")),
            Op::Catch(t, ok) => x.recover_all(|er| {
                log.add((*t, er.clone()));
                if *ok { <Validated<String, ()> as ErrorCategory<String>>::lift(*t as i64) } else { V::invalid(format!("{er}h{t}")) }
            }),
            Op::Recover(t, ok) => x.recover_all_at_once(|er| {
                log.add((*t, er[0].clone()));
                if *ok { Validated::Valid(*t as i64) } else { V::invalid(format!("{}h{t}", er[0])) }
            }),
            Op::Bind(t, f, ok) => {
                let k = |a: i64| {
                    log.add((*t, a.to_string()));
                    if *ok { Validated::Valid(f.ap(a)) } else { V::invalid(format!("b{t}")) }
                };
                if t % 2 == 0 { x.bind_owned(k) } else { x.bind(|a| k(*a)) }
            },
            Op::Map(t, f) => match x {
                Validated::Valid(a) => {
                    log.add((*t, a.to_string()));
                    Validated::Valid(f.ap(a))
                },
                i => i,
            },
            Op::MapErr(t) => WithError::fmap_error(x, |er: String| {
                log.add((*t, er.clone()));
                format!("{er}m{t}")
            }),
        }
    }
    Validated::to_result(&x)
}
fn run_option(start: &R, ops: &[Op], owned: bool, log: &L) -> Option<i64> {
    let mut x = start.clone().ok();
    for op in ops {
        x = match op {
            Op::Throw(_) => <Option<i64> as MonadError<()>>::throw(()),
            Op::Catch(t, ok) | Op::Recover(t, ok) => {
                let h = || {
                    log.add((*t, String::new()));
                    if *ok { Some(*t as i64) } else { None }
                };
                if owned { x.catch_owned(|_: ()| h()) } else { x.catch(|_: &()| h()) }
            },
            Op::Bind(t, f, ok) => {
                let k = |a: i64| {
                    log.add((*t, a.to_string()));
                    if *ok { Some(f.ap(a)) } else { None }
                };
                if owned { x.bind_owned(k) } else { x.bind(|a| k(*a)) }
            },
            Op::Map(t, f) => x.map(|a| {
                log.add((*t, a.to_string()));
                f.ap(a)
            }),
            Op::MapErr(t) => {
                let m = || {
                    log.add((*t, String::new()));
                    "m".to_string()
                };
                if owned { x.map_error_to_owned(|_: ()| m()).ok() } else { x.map_error_to(|_: &()| m()).ok() }
            },
        }
    }
    x
}
fn programs(cx: &mut Ctx, r: &mut Rng) {
    let start: R = if r.chance(1, 2) { Ok(r.small()) } else { Err(format!("e{}", r.string())) };
    let ops = gen_ops(r);
    let c = || format!("{start:?} {ops:?}");
    cx.case("program", &(&start, &ops), ops.len() > 1, c);
    let (want, ev) = model(&start, &ops);
    cx.count("handler_calls", ev.len() as u64);
    cx.count(if want.is_ok() { "ended_ok" } else { "ended_err" }, 1);
    let log: L = Log::new();
    for owned in [false, true] {
        let n = if owned { "result.owned" } else { "result" };
        if let Some(g) = cx.guard(n, c, || run_result(&start, &ops, owned, &log)) {
            cx.eq(&format!("{n}.value"), &g, &want, c);
            cx.eq(&format!("{n}.calls"), &log.take(), &ev, c);
        }
        let n = if owned { "option.owned" } else { "option" };
        let evo: Vec<(u32, String)> = {
            // an option carries no error: handlers see the unit
            let handlers: Vec<u32> = ops.iter().filter_map(|o| match o {
                Op::Catch(t, _) | Op::Recover(t, _) | Op::MapErr(t) => Some(*t),
                _ => None,
            }).collect();
            ev.iter().map(|(t, s)| (*t, if handlers.contains(t) { String::new() } else { s.clone() })).collect()
        };
        if let Some(g) = cx.guard(n, c, || run_option(&start, &ops, owned, &log)) {
            cx.eq(&format!("{n}.value"), &g, &want.clone().ok(), c);
            cx.eq(&format!("{n}.calls"), &log.take(), &evo, c);
        }
    }
    if let Some(g) = cx.guard("either", c, || run_either(&start, &ops, &log)) {
        cx.eq("either.value", &g, &want, c);
        cx.eq("either.calls", &log.take(), &ev, c);
    }
    if let Some(g) = cx.guard("validated", c, || run_validated(&start, &ops, &log)) {
        cx.eq("validated.value", &g, &want, c);
        cx.eq("validated.calls", &log.take(), &ev, c);
    }
}
/// the laws themselves and the operations that act on one side only
fn laws(cx: &mut Ctx, r: &mut Rng) {
    let x: R = if r.chance(1, 2) { Ok(r.small()) } else { Err(r.string()) };
    let (er, d, f) = (r.string(), r.small(), Fun::gen_(r));
    let c = || format!("{x:?} {er:?} {d} {f:?}");
    cx.case("laws", &(&x, &er, d, f), true, c);
    let h = |s: &String| -> R { if f.small(s.len() as i64, 2) == 0 { Ok(s.len() as i64) } else { Err(format!("h{s}")) } };
    let g = |s: &String| -> R { if f.small(s.len() as i64 + 9, 2) == 0 { Ok(-1) } else { Err(format!("g{s}")) } };
    let throw = |s: &String| <R as MonadError<String>>::throw::<i64>(s.clone());
    cx.eq("law.throw_catch", &throw(&er).catch(h), &h(&er), c);
    cx.eq("law.catch_throw", &x.catch(throw), &x, c);
    cx.eq("law.catch_pure", &Ok::<i64, String>(d).catch(h), &Ok(d), c);
    cx.eq("law.throw_bind", &throw(&er).bind(|_| Ok::<i64, String>(1)), &Err(er.clone()), c);
    cx.eq("law.catch_assoc", &x.catch(h).catch(g), &x.catch(|s: &String| h(s).catch(g)), c);
    cx.eq("law.owned", &(x.clone().catch_owned(|s: String| h(&s)), x.clone()), &(x.catch(h), x.clone()), c);
    // mapping both sides into a result
    let (n, l): (Log<i64>, Log<String>) = (Log::new(), Log::new());
    let sf = |a: i64| {
        n.add(a);
        f.ap(a).to_string()
    };
    let ef = |s: String| {
        l.add(s.clone());
        s.len()
    };
    let want = x.clone().map(|a| f.ap(a).to_string()).map_err(|s| s.len());
    let calls = (x.clone().ok().into_iter().collect::<Vec<_>>(), x.clone().err().into_iter().collect::<Vec<_>>());
    cx.eq("bimap_result.result", &ErrorOps::bimap_result(x.clone(), sf, ef), &want, c);
    cx.eq("bimap_result.result.calls", &(n.take(), l.take()), &calls, c);
    cx.eq("bimap_result.either", &ErrorOps::bimap_result(e(&x), sf, ef), &want, c);
    cx.eq("bimap_result.either.calls", &(n.take(), l.take()), &calls, c);
    // recover with a default
    let def = x.clone().unwrap_or(d);
    cx.eq("recover_with", &v(&x).recover_with(d), &Validated::Valid(def), c);
    cx.eq("unwrap_or.either", &e(&x).unwrap_or(d), &def, c);
    cx.eq("unwrap_or.validated", &v(&x).unwrap_or(&d), &def, c);
    let vv = v(&x).recover_all(|s| h(&s).map_or_else(V::invalid, V::valid));
    cx.eq("recover_all", &Validated::to_result(&vv), &x.catch(h), c);
    // error mapping keeps the success side as it is
    cx.eq("fmap_error.result", &WithError::fmap_error(x.clone(), |s: String| s.len()), &x.clone().map_err(|s| s.len()), c);
    cx.eq("fmap_error.either", &WithError::fmap_error(e(&x), |s: String| s.len()).to_result(), &x.clone().map_err(|s| s.len()), c);
    cx.eq("fmap_error.validated", &Validated::to_result(&WithError::fmap_error(v(&x), |s: String| s.len())), &x.clone().map_err(|s| s.len()), c);
    let my = Maybe::from_option(x.clone().ok());
    cx.eq("fmap_error.maybe", &WithError::<MaybeError>::fmap_error(my, |_| 7), &my, c);
    // lifting and failing in each category
    type Rc = Result<(), String>;
    type Ec = Either<String, ()>;
    type Vc = Validated<String, ()>;
    cx.eq("category.lift", &(<Rc as ErrorCategory<String>>::lift(d), <Ec as ErrorCategory<String>>::lift(d), <Vc as ErrorCategory<String>>::lift(d)), &(Ok(d), Either::Right(d), Validated::Valid(d)), c);
    let hr = (
        <Rc as ErrorCategory<String>>::handle_error::<i64>(er.clone()),
        <Ec as ErrorCategory<String>>::handle_error::<i64>(er.clone()),
        <Vc as ErrorCategory<String>>::handle_error::<i64>(er.clone()),
    );
    cx.eq("category.handle_error", &hr, &(Err(er.clone()), Either::Left(er.clone()), V::invalid(er.clone())), c);
    // composable results are results: recovery sees the whole error
    let cr: ComposableResult<i64, String> = x.clone().map_err(|s| ComposableError::with_code(s, 4).with_context("ctx"));
    let seen: Log<String> = Log::new();
    let rec = ErrorOps::recover(cr.clone(), |er: ComposableError<String>| {
        seen.add(er.error_chain());
        Err(er.set_code(5))
    });
    cx.eq("composable.recover", &rec.clone().map_err(|e| (e.core_error.clone(), e.context(), e.error_code())), &x.clone().map_err(|s| (s, vec!["ctx".to_string()], Some(5))), c);
    cx.eq("composable.recover.calls", &seen.take(), &x.clone().err().map(|s| format!("ctx -> {s} (code: 4)")).into_iter().collect::<Vec<_>>(), c);
    cx.eq("composable.catch", &cr.catch(|e: &ComposableError<String>| Ok(e.core_error.len() as i64)), &Ok::<i64, ComposableError<String>>(x.clone().unwrap_or_else(|s| s.len() as i64)), c);
    let bx: BoxedComposableResult<i64, String> = cr.clone().map_err(Box::new);
    cx.eq("composable.boxed", &WithError::fmap_error(bx, |b: Box<ComposableError<String>>| *b), &cr, c);
    // the older application error
    let a = error(er.clone());
    let b = error_with_context(er.clone(), d);
    cx.eq("app_error", &(a.message().clone(), a.context().copied(), b.message().clone(), b.context().copied()), &(er.clone(), None, er.clone(), Some(d)), c);
    let mb = b.clone().map(|s| s.len()).map_context(|k| k.map(|k| k + 1));
    cx.eq("app_error.map", &(*mb.message(), mb.context().copied()), &(er.len(), Some(d + 1)), c);
    cx.eq("app_error.eq", &(AppError::with_context(er.clone(), d) == b, AppError::with_context(er.clone(), d + 1) == b, AppError::with_context(format!("{er}."), d) == b), &(true, false, false), c);
    cx.eq("app_error.display", &(format!("{a}"), format!("{b}")), &(format!("{er:?}"), format!("{er:?} (Context: {d:?})")), c);
}

fn main() {
    main_with("C28", |cx| {
        cx.rule = "a fallible program (throw, catch, bind, map, map the error, recover) with its start, counted once per distinct program of at least two steps; law cases by their operands".into();
        cx.assumptions = vec!["an Option carries the unit as its error".into()];
        for (k, n) in [("ended_ok", 2_000), ("ended_err", 2_000), ("handler_calls", 10_000), ("cases.laws", 5_000)] {
            cx.require(k, n);
        }
        for n in [700usize, 66_000] {
            let es: Vec<String> = (0..n).map(|i| format!("e{i}")).collect();
            let big: V = Validated::invalid_many(es.clone());
            let c = || format!("{n} errors");
            cx.case("wide", &n, true, c);
            let lens: Vec<usize> = es.iter().map(|e| e.len()).collect();
            cx.check("wide.fmap_error", matches!(big.clone().fmap_error(|e| e.len()), Validated::Invalid(e) if e.to_vec() == lens), c);
            cx.check("wide.to_result", WithError::to_result(big) == Err("e0".to_string()), c);
        }
        let n = cx.n(25_000, 2_500_000);
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                programs(cx, &mut r);
                laws(cx, &mut r);
            }
        });
    });
}
