//! Descriptions worn by long use: one value of every kind is built once and then run thousands of
//! times, with arguments that change and repeat, first by one thread and then by four at once.
//! A run must be as good as the first one, whatever ran before or beside it.
use crate::*;
use rustica::category::function_category::FunctionCategory as FC;
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::lens::Lens;
use rustica::datatypes::prism::Prism;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::{State, get, modify, put};
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::error::{accumulate_context, context_accumulator, context_fn};
use rustica::traits::arrow::Arrow;
use rustica::traits::category::Category;
use rustica::traits::identity::Identity;
use rustica::transformers::{ContT, MonadTransformer, ReaderT, StateT};
use rustica::utils::{categorical_utils as cu, functions as fu, hkt_utils as hu};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};

/// the argument of the i-th run: small numbers that repeat, now and then one never seen before
fn arg(i: usize) -> i64 {
    if i % 11 == 7 { i as i64 } else { (i as i64).wrapping_mul(2654435761) % 53 - 20 }
}
fn one<B: PartialEq + std::fmt::Debug>(from: usize, n: usize, run: &dyn Fn(i64) -> B, want: &dyn Fn(i64) -> B) -> Option<String> {
    for i in from..from + n {
        let x = arg(i);
        let w = want(x);
        match quiet(|| run(x)) {
            Ok(g) if g == w => {}
            Ok(g) => return Some(format!("run {i} (argument {x}) gave {g:?}, want {w:?}")),
            Err(p) => return Some(format!("run {i} (argument {x}) panicked: {p:?}; want {w:?}")),
        }
    }
    None
}
/// one thread
pub fn here<B: PartialEq + std::fmt::Debug>(cx: &mut Ctx, what: &str, n: usize, run: impl Fn(i64) -> B, want: impl Fn(i64) -> B) {
    cx.watch_begin(what);
    if let Some(e) = one(0, n, &run, &want) {
        cx.violation(format!("worn.{what}"), format!("the same {what} run again and again: {e}"));
    }
    cx.watch_end();
    cx.case("worn", &what, true, || format!("{what} run {n} times"));
    cx.count("worn_runs", n as u64);
}
/// one thread, then four together
pub fn worn<B: PartialEq + std::fmt::Debug>(cx: &mut Ctx, what: &str, n: usize, run: impl Fn(i64) -> B + Sync, want: impl Fn(i64) -> B + Sync) {
    here(cx, what, n, &run, &want);
    cx.watch_begin(what);
    let at = AtomicUsize::new(0);
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (run, want, at) = (&run, &want, &at);
                s.spawn(move || {
                    at.fetch_add(1, Ordering::SeqCst);
                    while at.load(Ordering::SeqCst) < 4 {
                        std::hint::spin_loop();
                    }
                    one(n + t * 3, n / 3, run, want)
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("thread died".into()))).collect()
    });
    cx.watch_end();
    cx.count("worn_runs", (n / 3 * 4) as u64);
    cx.count("worn_shared", 1);
    if let Some(e) = bad.first() {
        cx.violation(format!("worn.{what}.shared"), format!("the same {what} run by four threads at once: {e}"));
    }
}
thread_local!(static TRACE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
/// a step that leaves its mark in the thread's trace
fn mark(c: char) {
    TRACE.with_borrow_mut(|t| t.push(c))
}
/// the result of a run together with the marks its steps left, in order
fn traced<B>(f: impl FnOnce() -> B) -> (B, String) {
    TRACE.take();
    let b = f();
    (b, TRACE.take())
}
fn seen<B>(b: B, t: &str) -> (B, String) {
    (b, t.to_string())
}
fn runs(cx: &Ctx) -> usize {
    cx.n(6000, 60_000)
}
type A1 = Arc<dyn Fn(i64) -> i64 + Send + Sync>;

pub fn state(cx: &mut Ctx, r: &mut Rng) {
    let n = runs(cx);
    let (f, g, k) = (Fun::gen_(r), Fun::gen_(r), r.small());
    let ap = move |x: i64| f.ap(x);
    let step = move || State::new(move |s: i64| (f.ap(s), s.wrapping_add(g.small(s, 5) as i64)));
    let st = move |s: i64| (f.ap(s), s.wrapping_add(g.small(s, 5) as i64));
    let d = step();
    worn(cx, "State.new", n, move |x| (d.run_state(x), d.eval_state(x), d.exec_state(x)), move |x| (st(x), st(x).0, st(x).1));
    let d = State::pure(k);
    worn(cx, "State.pure", n, move |x| d.run_state(x), move |x| (k, x));
    let d = get::<i64>();
    worn(cx, "State.get", n, move |x| d.run_state(x), |x| (x, x));
    let d = put(k);
    worn(cx, "State.put", n, move |x| d.run_state(x), move |_| ((), k));
    let d = modify(ap);
    worn(cx, "State.modify", n, move |x| d.run_state(x), move |x| ((), f.ap(x)));
    let d = step().fmap(move |a| g.ap(a));
    worn(cx, "State.fmap", n, move |x| d.run_state(x), move |x| (g.ap(st(x).0), st(x).1));
    let d = step().bind(move |a| State::new(move |s: i64| (g.ap2(a, s), s + 1)));
    worn(
        cx,
        "State.bind",
        n,
        move |x| d.run_state(x),
        move |x| {
            let (a, s) = st(x);
            (g.ap2(a, s), s + 1)
        },
    );
    let d = State::new(move |s: i64| (Arc::new(move |b: i64| g.ap2(s, b)) as A1, s + 1)).bind(move |h| step().fmap(move |b| h(b)));
    worn(
        cx,
        "State.nested",
        n,
        move |x| d.run_state(x),
        move |x| {
            let (b, s) = st(x + 1);
            (g.ap2(x, b), s)
        },
    );
    fn plus(b: i64) -> i64 {
        b + 1
    }
    fn less(b: i64) -> i64 {
        b - 1
    }
    let d = State::new(|s: i64| (if s % 2 == 0 { plus as fn(i64) -> i64 } else { less }, s + 1)).apply(step());
    worn(
        cx,
        "State.apply",
        n,
        move |x| d.run_state(x),
        move |x| {
            let (b, s) = st(x + 1);
            (if x % 2 == 0 { b + 1 } else { b - 1 }, s)
        },
    );
    let d: State<i64, Result<i64, String>> = State::new(move |s: i64| (if f.pred(s) { Ok(f.ap(s)) } else { Err(format!("bad{s}")) }, s + 1));
    let w = move |s: i64| if f.pred(s) { Ok(f.ap(s)) } else { Err(format!("bad{s}")) };
    worn(
        cx,
        "State.try",
        n,
        move |x| {
            let (r1, s1) = d.try_run_state(x);
            let (r2, s2) = d.try_run_state_with_context(x, "ctx");
            let ex = d.try_exec_state_with_context(x, "more").map_err(|e| (e.context(), e.core_error().clone()));
            (r1.map_err(|e| e.core_error().clone()), s1, r2.map_err(|e| (e.context(), e.core_error().clone())), s2, ex)
        },
        move |x| (w(x), x + 1, w(x).map_err(|e| (vec!["ctx".to_string()], e)), x + 1, w(x).map(|_| x + 1).map_err(|e| (vec!["more".to_string()], e))),
    );

    type R = Result<(i64, i64), String>;
    type T = StateT<i64, R, i64>;
    let base = move |s: i64| -> R { if g.small(s, 7) == 0 { Err(format!("bad{s}")) } else { Ok((s + 1, f.ap(s))) } };
    let t = move || -> T { StateT::new(base) };
    let other = move || -> T { StateT::new(move |s: i64| Ok((s + 2, g.ap(s)))) };
    let ta = move || -> T {
        StateT::new(move |s: i64| {
            mark('a');
            base(s)
        })
    };
    let tb = move || -> T {
        StateT::new(move |s: i64| {
            mark('b');
            Ok((s + 2, g.ap(s)))
        })
    };
    let d: T = ta().combine_with(
        &tb(),
        move |a, b| {
            mark('f');
            g.ap2(a, b)
        },
        |a: R, b: R, h| {
            mark('c');
            Ok(h(a?, b?))
        },
    );
    worn(cx, "StateT.combine_with.order", n, move |x| traced(|| d.run_state(x)), move |x| seen(base(x).map(|(_, a)| (x + 2, g.ap2(a, g.ap(x)))), if base(x).is_ok() { "abcf" } else { "abc" }));
    let d: T = ta().apply(tb(), move |a: R, b: R| {
        mark('c');
        let ((_, a), (s, b)) = (a?, b?);
        Ok((s, g.ap2(a, b)))
    });
    worn(cx, "StateT.apply.order", n, move |x| traced(|| d.run_state(x)), move |x| seen(base(x).map(|(_, a)| (x + 2, g.ap2(a, g.ap(x)))), "abc"));
    let d: T = T::LiftM(Ok((1, k))).apply(tb(), move |a: R, b: R| {
        mark('c');
        let ((_, a), (s, b)) = (a?, b?);
        Ok((s, g.ap2(a, b)))
    });
    worn(cx, "StateT.lifted.apply.order", n, move |x| traced(|| d.run_state(x)), move |x| seen(Ok((x + 2, g.ap2(k, g.ap(x)))), "bc"));
    let d = State::new(|s: i64| {
        mark('a');
        (if s % 2 == 0 { plus as fn(i64) -> i64 } else { less }, s + 1)
    })
    .apply(State::new(move |s: i64| {
        mark('b');
        st(s)
    }))
    .bind(move |a| {
        mark('c');
        State::new(move |s: i64| {
            mark('d');
            (a, s)
        })
    })
    .fmap(|a| {
        mark('e');
        a
    });
    worn(
        cx,
        "State.order",
        n,
        move |x| traced(|| d.run_state(x)),
        move |x| {
            let (b, s) = st(x + 1);
            seen((if x % 2 == 0 { b + 1 } else { b - 1 }, s), "abcde")
        },
    );
    let d = t();
    worn(cx, "StateT.new", n, move |x| (d.run_state(x), d.exec_state(x, |m: R| m.is_ok())), move |x| (base(x), base(x).is_ok()));
    let d: StateT<i64, R, i64> = T::get(Ok);
    worn(cx, "StateT.get", n, move |x| d.run_state(x), |x| Ok((x, x)));
    let d: StateT<i64, R, i64> = StateT::<i64, R, i64>::put(k, Ok);
    worn(cx, "StateT.put", n, move |x| d.run_state(x), move |x| Ok((k, x)));
    let d: StateT<i64, Result<(i64, ()), String>, ()> = StateT::<i64, Result<(i64, ()), String>, ()>::modify(ap, Ok);
    worn(cx, "StateT.modify", n, move |x| d.run_state(x), move |x| Ok((f.ap(x), ())));
    let d: T = StateT::pure(k, Ok);
    worn(cx, "StateT.pure", n, move |x| d.run_state(x), move |x| Ok((x, k)));
    let d: T = T::lift(Ok((k, k + 1)));
    worn(cx, "StateT.lift", n, move |x| d.run_state(x), move |_| Ok((k, k + 1)));
    let d: T = t().fmap_with(move |a| g.ap(a), |m: R, h| m.map(|x| h(x)));
    worn(cx, "StateT.fmap_with", n, move |x| d.run_state(x), move |x| base(x).map(|(s, a)| (s, g.ap(a))));
    let d: T = t().bind_with(move |a| StateT::new(move |s: i64| Ok((s * 2, g.ap2(a, s)))), |m: R, h: Box<dyn Fn((i64, i64)) -> R + Send + Sync>| m.and_then(|x| h(x)));
    worn(cx, "StateT.bind_with", n, move |x| d.run_state(x), move |x| base(x).map(|(s, a)| (s * 2, g.ap2(a, s))));
    let d: T = T::LiftM(Ok((k, k))).bind_with(move |a| StateT::new(move |s: i64| Ok((s * 2, g.ap2(a, s)))), |m: R, h: Box<dyn Fn((i64, i64)) -> R + Send + Sync>| m.and_then(|x| h(x)));
    worn(cx, "StateT.lifted.bind_with", n, move |x| d.run_state(x), move |_| Ok((k * 2, g.ap2(k, k))));
    let d: T = t().combine_with(&other(), move |a, b| g.ap2(a, b), |a: R, b: R, h| Ok(h(a?, b?)));
    worn(cx, "StateT.combine_with", n, move |x| d.run_state(x), move |x| base(x).map(|(_, a)| (x + 2, g.ap2(a, g.ap(x)))));
    let d: T = t().apply(other(), move |a: R, b: R| {
        let ((_, a), (s, b)) = (a?, b?);
        Ok((s, g.ap2(a, b)))
    });
    worn(cx, "StateT.apply", n, move |x| d.run_state(x), move |x| base(x).map(|(_, a)| (x + 2, g.ap2(a, g.ap(x)))));
    let d: T = T::LiftM(Ok((1, k))).apply(other(), move |a: R, b: R| {
        let ((_, a), (s, b)) = (a?, b?);
        Ok((s, g.ap2(a, b)))
    });
    worn(cx, "StateT.lifted.apply", n, move |x| d.run_state(x), move |x| Ok((x + 2, g.ap2(k, g.ap(x)))));
    let d = t().map_error(|e: String| e.len());
    worn(cx, "StateT.map_error", n, move |x| d.run_state(x), move |x| base(x).map_err(|e| e.len()));
    let d: StateT<i64, Result<i64, String>, i64> = t().join(|m: R| m.map(|(s, a)| s ^ a));
    worn(cx, "StateT.join", n, move |x| d.run_state(x), move |x| base(x).map(|(s, a)| s ^ a));
    let d = t();
    worn(
        cx,
        "StateT.try",
        n,
        move |x| {
            let c = d.try_run_state_with_context(x, "ctx").map_err(|e| (e.context(), e.core_error().clone()));
            (d.try_eval_state(x).map_err(|e| e.core_error().clone()), d.try_exec_state(x).map_err(|e| e.core_error().clone()), c)
        },
        move |x| (base(x).map(|p| p.1), base(x).map(|p| p.0), base(x).map_err(|e| (vec!["ctx".to_string()], e))),
    );
    let d: State<i64, i64> = StateT::<i64, Id<(i64, i64)>, i64>::new(move |s: i64| Id::new((s + 1, f.ap(s)))).to_state();
    worn(cx, "StateT.to_state", n, move |x| d.run_state(x), move |x| (f.ap(x), x + 1));
    let d = StateT::from_state(step());
    worn(cx, "StateT.from_state", n, move |x| d.run_state(x).unwrap(), move |x| (st(x).1, st(x).0));
}

pub fn reader(cx: &mut Ctx, r: &mut Rng) {
    let n = runs(cx);
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    let base = move || Reader::new(move |e: i64| f.ap(e));
    let d = base();
    worn(cx, "Reader.new", n, move |x| d.run_reader(x), move |x| f.ap(x));
    let d = Reader::<i64, i64>::ask_transform(move |e| f.ap(e));
    worn(cx, "Reader.ask_transform", n, move |x| d.run_reader(x), move |x| f.ap(x));
    let d = Reader::<i64, i64>::asks(move |e| f.ap(e));
    worn(cx, "Reader.asks", n, move |x| d.run_reader(x), move |x| f.ap(x));
    let d = Reader::<i64, i64>::ask_with(move |e| f.ap(*e), move |a| Id::new(g.ap(a)));
    worn(cx, "Reader.ask_with", n, move |x| d.run_reader(x), move |x| g.ap(f.ap(x)));
    let d = base().fmap(move |a| g.ap(a));
    worn(cx, "Reader.fmap", n, move |x| d.run_reader(x), move |x| g.ap(f.ap(x)));
    let d = base().bind(move |a| Reader::new(move |e: i64| g.ap2(a, e)));
    worn(cx, "Reader.bind", n, move |x| d.run_reader(x), move |x| g.ap2(f.ap(x), x));
    let d = base().local(move |e| g.ap(e));
    worn(cx, "Reader.local", n, move |x| d.run_reader(x), move |x| f.ap(g.ap(x)));
    let d = base().combine(&Reader::new(|e: i64| e ^ 5), move |a, b| g.ap2(a, b));
    worn(cx, "Reader.combine", n, move |x| d.run_reader(x), move |x| g.ap2(f.ap(x), x ^ 5));
    let (ra, rb) = (
        Reader::new(move |e: i64| {
            mark('a');
            f.ap(e)
        }),
        Reader::new(move |e: i64| {
            mark('b');
            e ^ 5
        }),
    );
    let d = ra
        .combine(&rb, move |a, b| {
            mark('f');
            g.ap2(a, b)
        })
        .bind(move |a| {
            mark('g');
            Reader::new(move |e: i64| {
                mark('h');
                g.ap2(a, e)
            })
        })
        .local(|e| {
            mark('l');
            e + 1
        });
    worn(cx, "Reader.order", n, move |x| traced(|| d.run_reader(x)), move |x| seen(g.ap2(g.ap2(f.ap(x + 1), (x + 1) ^ 5), x + 1), "labfgh"));
    let a = base();
    let d = a.combine(&a.local(|e| e + 1), move |a, b| g.ap2(a, b));
    worn(cx, "Reader.combine.self", n, move |x| d.run_reader(x), move |x| g.ap2(f.ap(x), f.ap(x + 1)));

    type M = Result<i64, String>;
    type T = ReaderT<i64, M, i64>;
    let bt = move |e: i64| -> M { if g.small(e, 7) == 0 { Err(format!("bad{e}")) } else { Ok(f.ap(e)) } };
    let t = move || -> T { ReaderT::new(bt) };
    let (ra, rb): (T, T) = (
        ReaderT::new(move |e: i64| {
            mark('a');
            bt(e)
        }),
        ReaderT::new(move |e: i64| {
            mark('b');
            Ok(e ^ 5)
        }),
    );
    let w = move |x: i64, ok: &str, bad: &str| seen(bt(x).map(|a| g.ap2(a, x ^ 5)), if bt(x).is_ok() { ok } else { bad });
    let d: T = ra.lift2(
        move |a: i64, b: i64| {
            mark('f');
            g.ap2(a, b)
        },
        |a: M, b: M, h| {
            mark('c');
            Ok(h(a?, b?))
        },
    )(&ra, &rb);
    worn(cx, "ReaderT.lift2.order", n, move |x| traced(|| d.run_reader(x)), move |x| w(x, "abcf", "abc"));
    let d: T = ra.apply_with(
        &ReaderT::<i64, M, fn(i64) -> i64>::new(|e: i64| {
            mark('b');
            Ok(e ^ 5)
        }),
        move |a: M, b: M| {
            mark('c');
            Ok(g.ap2(a?, b?))
        },
    );
    worn(cx, "ReaderT.apply_with.order", n, move |x| traced(|| d.run_reader(x)), move |x| w(x, "abc", "abc"));
    let d = t();
    worn(cx, "ReaderT.new", n, move |x| d.run_reader(x), bt);
    let d: T = T::ask(Ok);
    worn(cx, "ReaderT.ask", n, move |x| d.run_reader(x), Ok);
    let d: T = T::asks(move |e| f.ap(e), Ok);
    worn(cx, "ReaderT.asks", n, move |x| d.run_reader(x), move |x| Ok(f.ap(x)));
    let d: T = T::ask_with(move |e: &i64| f.ap(*e), Ok);
    worn(cx, "ReaderT.ask_with", n, move |x| d.run_reader(x), move |x| Ok(f.ap(x)));
    let d: T = T::asks_with(move |e: &i64| f.ap(*e), move |a| g.ap(a), Ok);
    worn(cx, "ReaderT.asks_with", n, move |x| d.run_reader(x), move |x| Ok(g.ap(f.ap(x))));
    let d: T = t().local(|e| e + 3);
    worn(cx, "ReaderT.local", n, move |x| d.run_reader(x), move |x| bt(x + 3));
    let d: T = t().fmap(move |a| g.ap(a));
    worn(cx, "ReaderT.fmap", n, move |x| d.run_reader(x), move |x| bt(x).map(|a| g.ap(a)));
    let d: T = t().fmap_with(move |a| g.ap(a), |m: M, h| m.map(h));
    worn(cx, "ReaderT.fmap_with", n, move |x| d.run_reader(x), move |x| bt(x).map(|a| g.ap(a)));
    let d: T = t().bind(move |a| ReaderT::new(move |e: i64| Ok(g.ap2(a, e))));
    worn(cx, "ReaderT.bind", n, move |x| d.run_reader(x), move |x| bt(x).map(|a| g.ap2(a, x)));
    let d: T = t().bind_with(move |a| ReaderT::new(move |e: i64| Ok(g.ap2(a, e))), |m: M, h: Arc<dyn Fn(i64) -> M + Send + Sync>| m.and_then(|a| h(a)));
    worn(cx, "ReaderT.bind_with", n, move |x| d.run_reader(x), move |x| bt(x).map(|a| g.ap2(a, x)));
    let d: T = t().combine(&ReaderT::new(|e: i64| Ok(e ^ 5)), move |a, b| g.ap2(a, b));
    worn(cx, "ReaderT.combine", n, move |x| d.run_reader(x), move |x| bt(x).map(|a| g.ap2(a, x ^ 5)));
    let d: T = t().lift2(move |a: i64, b: i64| g.ap2(a, b), |a: M, b: M, h| Ok(h(a?, b?)))(&t(), &ReaderT::new(|e: i64| Ok(e ^ 5)));
    worn(cx, "ReaderT.lift2", n, move |x| d.run_reader(x), move |x| bt(x).map(|a| g.ap2(a, x ^ 5)));
    let d: T = t().apply_with(&ReaderT::<i64, M, fn(i64) -> i64>::new(|e: i64| Ok(e)), move |a: M, b: M| Ok(g.ap2(a?, b?)));
    worn(cx, "ReaderT.apply_with", n, move |x| d.run_reader(x), move |x| bt(x).map(|a| g.ap2(a, x)));
    let d: T = T::lift(Ok(9));
    worn(cx, "ReaderT.lift", n, move |x| d.run_reader(x), |_| Ok(9));
    let d: T = T::pure(8, Ok);
    worn(cx, "ReaderT.pure", n, move |x| d.run_reader(x), |_| Ok(8));
    let d = t().map_error(|e: String| e.len());
    worn(cx, "ReaderT.map_error", n, move |x| d.run_reader(x), move |x| bt(x).map_err(|e| e.len()));
    let d = t();
    worn(
        cx,
        "ReaderT.try",
        n,
        move |x| (d.try_run_reader(x).map_err(|e| e.core_error().clone()), d.try_run_reader_with_context(x, "ctx").map_err(|e| (e.context(), e.core_error().clone()))),
        move |x| (bt(x), bt(x).map_err(|e| (vec!["ctx".to_string()], e))),
    );
}

pub fn cont(cx: &mut Ctx, r: &mut Rng) {
    let n = runs(cx);
    let (f, g, c) = (Fun::gen_(r), Fun::gen_(r), r.small());
    // the argument comes in through the final continuation
    let ask = move |d: Cont<i64, i64>| move |x: i64| d.run(move |a| g.ap2(a, x));
    let twice = move || Cont::new(move |k: Arc<dyn Fn(i64) -> i64 + Send + Sync>| k(c).wrapping_add(k(f.ap(c)).wrapping_mul(3)));
    let wtwice = move |k: &dyn Fn(i64) -> i64| k(c).wrapping_add(k(f.ap(c)).wrapping_mul(3));
    worn(cx, "Cont.new", n, ask(twice()), move |x| wtwice(&|a| g.ap2(a, x)));
    worn(cx, "Cont.pure", n, ask(Cont::pure(c)), move |x| g.ap2(c, x));
    worn(cx, "Cont.return_cont", n, ask(Cont::return_cont(c)), move |x| g.ap2(c, x));
    worn(cx, "Cont.fmap", n, ask(twice().fmap(move |a| f.ap(a))), move |x| wtwice(&|a| g.ap2(f.ap(a), x)));
    worn(cx, "Cont.bind", n, ask(twice().bind(move |a| twice().fmap(move |b| f.ap2(a, b)))), move |x| wtwice(&|a| wtwice(&|b| g.ap2(f.ap2(a, b), x))));
    worn(cx, "Cont.apply", n, ask(twice().apply(Cont::pure(Arc::new(move |a: i64| f.ap(a))))), move |x| wtwice(&|a| g.ap2(f.ap(a), x)));
    let d = Cont::<i64, i64>::pure(c).call_cc(move |exit: Box<dyn Fn(i64) -> Cont<i64, i64> + Send + Sync>| exit(4).fmap(move |a| f.ap(a)));
    let first = quiet(|| d.run(move |a: i64| g.ap2(a, 1))).ok();
    let dd = d.clone();
    worn(cx, "Cont.call_cc", n, move |_| quiet(|| dd.run(move |a: i64| g.ap2(a, 1))).ok(), move |_| first);

    type M = Option<i64>;
    type T = ContT<i64, M, i64>;
    let ask = move |d: T| move |x: i64| d.run(move |a| if a == 13 { None } else { Some(g.ap2(a, x)) });
    let k = move |x: i64| move |a: i64| -> M { if a == 13 { None } else { Some(g.ap2(a, x)) } };
    let tw = move || -> T { ContT::new(move |k: Arc<dyn Fn(i64) -> M + Send + Sync>| Some(k(c)?.wrapping_add(k(f.ap(c))?.wrapping_mul(3)))) };
    let wtw = move |k: &dyn Fn(i64) -> M| -> M { Some(k(c)?.wrapping_add(k(f.ap(c))?.wrapping_mul(3))) };
    worn(cx, "ContT.new", n, ask(tw()), move |x| wtw(&k(x)));
    worn(cx, "ContT.pure", n, ask(T::pure(c)), move |x| k(x)(c));
    worn(cx, "ContT.fmap", n, ask(tw().fmap(move |a| f.ap(a))), move |x| wtw(&|a| k(x)(f.ap(a))));
    worn(cx, "ContT.bind", n, ask(tw().bind(move |a| tw().fmap(move |b| f.ap2(a, b)))), move |x| wtw(&|a| wtw(&|b| k(x)(f.ap2(a, b)))));
    worn(cx, "ContT.apply", n, ask(tw().apply(ContT::pure(Arc::new(move |a: i64| f.ap(a)) as A1))), move |x| wtw(&|a| k(x)(f.ap(a))));
    let cc = T::call_cc(move |exit: Arc<dyn Fn(i64) -> T + Send + Sync>| {
        let e2 = exit.clone();
        tw().bind(move |a| if f.pred(a) { e2(g.ap(a)) } else { T::pure(a + 1) })
    });
    worn(cx, "ContT.call_cc", n, ask(cc), move |x| {
        let inner = |a: i64| if f.pred(a) { k(x)(g.ap(a)) } else { k(x)(a + 1) };
        wtw(&inner)
    });
    let d = ContT::from_cont(twice()).to_cont();
    worn(cx, "ContT.from_to", n, move |x| d.run(move |a| g.ap2(a, x)), move |x| wtwice(&|a| g.ap2(a, x)));
}

pub fn io(cx: &mut Ctx, r: &mut Rng) {
    let n = runs(cx);
    let (f, g, k) = (Fun::gen_(r), Fun::gen_(r), r.small());
    // every thread has an argument of its own, which the effect reads
    thread_local!(static NOW: std::cell::Cell<i64> = const { std::cell::Cell::new(0) });
    let ask = |d: IO<i64>| {
        move |x: i64| {
            NOW.set(x);
            (d.run(), d.try_get().ok())
        }
    };
    let both = |a: i64| (a, Some(a));
    let now = || IO::new(|| NOW.get());
    worn(cx, "IO.new", n, ask(now()), both);
    worn(cx, "IO.pure", n, ask(IO::pure(k)), move |_| both(k));
    worn(cx, "IO.fmap", n, ask(now().fmap(move |a| f.ap(a))), move |x| both(f.ap(x)));
    worn(cx, "IO.bind", n, ask(now().bind(move |a| IO::new(move || g.ap2(a, NOW.get())))), move |x| both(g.ap2(x, x)));
    worn(cx, "IO.bind.pure", n, ask(IO::pure(k).bind(move |a| IO::new(move || g.ap2(a, NOW.get())))), move |x| both(g.ap2(k, x)));
    worn(cx, "IO.apply", n, ask(now().apply(IO::pure(move |a: i64| f.ap(a)))), move |x| both(f.ap(x)));
    worn(cx, "IO.combine", n, ask(IO::<i64>::combine(&now(), &now()).fmap(move |(a, b)| g.ap2(a, b))), move |x| both(g.ap2(x, x)));
    let eff = |c: char| {
        IO::new(move || {
            mark(c);
            NOW.get()
        })
    };
    let d = IO::sequence(vec![eff('a'), eff('b'), eff('c'), eff('d')]).fmap(move |v| v.iter().fold(1, |a, b| g.ap2(a, *b)));
    worn(
        cx,
        "IO.sequence.order",
        n,
        {
            let ask = ask(d);
            move |x| traced(|| ask(x))
        },
        move |x| seen(both([x, x, x, x].iter().fold(1, |a, b| g.ap2(a, *b))), "abcdabcd"),
    );
    let d = IO::<i64>::combine(&eff('a'), &eff('b')).bind(move |(a, b)| {
        IO::new(move || {
            mark('c');
            g.ap2(a, b)
        })
    });
    worn(
        cx,
        "IO.combine.order",
        n,
        {
            let ask = ask(d);
            move |x| traced(|| ask(x))
        },
        move |x| seen(both(g.ap2(x, x)), "abcabc"),
    );
    let d = eff('a').apply(IO::new(move || {
        mark('b');
        move |a: i64| {
            mark('f');
            f.ap(a)
        }
    }));
    let dr = {
        let ask = ask(d);
        move |x| traced(|| ask(x))
    };
    let first = dr(1).1;
    worn(cx, "IO.apply.order", n, dr, move |x| seen(both(f.ap(x)), &first));
    worn(cx, "IO.sequence", n, ask(IO::sequence(vec![now(), IO::pure(k), now()]).fmap(move |v| v.iter().fold(1, |a, b| g.ap2(a, *b)))), move |x| both(g.ap2(g.ap2(g.ap2(1, x), k), x)));
    worn(cx, "IO.when", n, ask(IO::when(move || f.pred(NOW.get()), || NOW.get(), move || k)), move |x| both(if f.pred(x) { x } else { k }));
    let risky = move || {
        IO::new(move || {
            let x = NOW.get();
            if f.small(x, 5) == 0 {
                inject(x)
            }
            x
        })
    };
    let m = n / 4;
    worn(cx, "IO.recover", m, ask(risky().recover(move |_| IO::new(move || g.ap(NOW.get())))), move |x| both(if f.small(x, 5) == 0 { g.ap(x) } else { x }));
    worn(cx, "IO.recover_with", m, ask(risky().recover_with(k)), move |x| both(if f.small(x, 5) == 0 { k } else { x }));
    let d = risky();
    worn(
        cx,
        "IO.try_get",
        m,
        move |x| {
            NOW.set(x);
            (d.try_get().ok(), d.try_get_composable_with_context("ctx").map_err(|e| e.context().len()).ok())
        },
        move |x| {
            let v = (f.small(x, 5) != 0).then_some(x);
            (v, v)
        },
    );
}

pub fn asyncm(cx: &mut Ctx, r: &mut Rng, rt: &tokio::runtime::Runtime) {
    let n = cx.n(2500, 25_000);
    let (f, g, k) = (Fun::gen_(r), Fun::gen_(r), r.small());
    tokio::task_local!(static NOW: i64);
    let ask = |d: AsyncM<i64>| {
        let d = d;
        move |x: i64| rt.block_on(NOW.scope(x, d.try_get()))
    };
    let now = || AsyncM::new(|| async { NOW.get() });
    let slow = || {
        AsyncM::new(|| async {
            tokio::task::yield_now().await;
            NOW.get()
        })
    };
    worn(cx, "AsyncM.new", n, ask(slow()), |x| x);
    worn(cx, "AsyncM.pure", n, ask(AsyncM::pure(k)), move |_| k);
    worn(cx, "AsyncM.fmap", n, ask(slow().fmap(move |a| async move { f.ap(a) })), move |x| f.ap(x));
    worn(cx, "AsyncM.fmap_owned", n, ask(now().fmap_owned(move |a| async move { f.ap(a) })), move |x| f.ap(x));
    worn(cx, "AsyncM.bind", n, ask(slow().bind(move |a| async move { AsyncM::new(move || async move { g.ap2(a, NOW.get()) }) })), move |x| g.ap2(x, x));
    worn(cx, "AsyncM.bind_owned", n, ask(now().bind_owned(move |a| async move { AsyncM::pure(g.ap(a)) })), move |x| g.ap(x));
    worn(cx, "AsyncM.apply", n, ask(slow().apply(AsyncM::pure(move |a: i64| f.ap(a)))), move |x| f.ap(x));
    worn(cx, "AsyncM.apply_owned", n, ask(slow().apply_owned(AsyncM::pure(move |a: i64| f.ap(a)))), move |x| f.ap(x));
    worn(cx, "AsyncM.zip_with", n, ask(now().zip_with(slow(), move |a, b| g.ap2(a, b))), move |x| g.ap2(x, x));
    worn(cx, "AsyncM.zip", n, ask(slow().zip(now()).fmap(move |(a, b)| async move { g.ap2(a, b) })), move |x| g.ap2(x, x));
    worn(
        cx,
        "AsyncM.from_result_or_default",
        n,
        ask(AsyncM::from_result_or_default(
            move || async move {
                let x = NOW.get();
                if f.pred(x) { Ok(x) } else { Err(()) }
            },
            k,
        )),
        move |x| if f.pred(x) { x } else { k },
    );
    let risky = AsyncM::new(move || async move {
        let x = NOW.get();
        if f.small(x, 5) == 0 {
            inject(x)
        }
        x
    });
    worn(cx, "AsyncM.recover_with", n / 2, ask(risky.recover_with(k)), move |x| if f.small(x, 5) == 0 { k } else { x });
}

pub fn lens(cx: &mut Ctx, r: &mut Rng) {
    let n = runs(cx);
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    type S = (i64, i64);
    let l = Lens::new(|s: &S| s.0, |s: S, a: i64| (a, s.1));
    let s = |x: i64| (x, x ^ 3);
    worn(
        cx,
        "Lens",
        n,
        |x| (l.get(&s(x)), l.set(s(x), g.ap(x)), l.set_always(s(x), x + 1), l.modify(s(x), |a| f.ap(a)), l.modify_always(s(x), |a| g.ap(a))),
        |x| (x, (g.ap(x), x ^ 3), (x + 1, x ^ 3), (f.ap(x), x ^ 3), (g.ap(x), x ^ 3)),
    );
    let l = Lens::new(|s: &S| s.0, |s: S, a: i64| (a, s.1)).fmap(|a: i64| a.wrapping_mul(2), |b: i64| b / 2);
    worn(cx, "Lens.fmap", n, |x| (l.get(&s(x)), l.set(s(x), x * 4), l.modify(s(x), |b| b + 2)), |x| (x * 2, (x * 2, x ^ 3), (x + 1, x ^ 3)));
}
pub fn prism(cx: &mut Ctx, r: &mut Rng) {
    let n = runs(cx);
    let f = Fun::gen_(r);
    type S = Result<i64, String>;
    let s = |x: i64| -> S { if x % 3 == 0 { Err(format!("no{x}")) } else { Ok(x) } };
    let p = Prism::new(|s: &S| s.clone().ok(), |a: &i64| Ok(*a));
    worn(cx, "Prism", n, |x| (p.preview(&s(x)), p.review(&x), p.modify(s(x), |a| f.ap(a)), p.set_if_different(s(x), x ^ 1)), |x| (s(x).ok(), Ok(x), s(x).map(|a| f.ap(a)), Ok(x ^ 1)));
    let p = Prism::<S, i64, _, _>::for_case::<S, i64>(|s: &S| s.clone().ok(), |a: &i64| Ok(*a));
    worn(cx, "Prism.for_case", n, |x| (p.preview(&s(x)), p.review(&x), p.modify(s(x), |a| f.ap(a))), |x| (s(x).ok(), Ok(x), s(x).map(|a| f.ap(a))));
}

pub fn predicates(cx: &mut Ctx, r: &mut Rng) {
    let n = runs(cx);
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    let a = move || Predicate::new(move |x: &i64| f.pred(*x));
    let b = move || Predicate::new(move |x: &i64| g.pred(*x));
    let (p, q) = (move |x: i64| f.pred(x), move |x: i64| g.pred(x));
    let d = [a().union(&b()), a().intersection(&b()), a().diff(&b()), a().negate(), a() | b(), a() & b(), a() - b(), !a()];
    here(
        cx,
        "Predicate",
        n,
        |x| d.iter().map(|d| d.contains(&x)).collect::<Vec<_>>(),
        |x| {
            let (p, q) = (p(x), q(x));
            vec![p || q, p && q, p && !q, !p, p || q, p && q, p && !q, !p]
        },
    );
    let d = [
        FC::compose_morphisms(&FC::lift(move |x: i64| f.ap(x)), &FC::lift(move |x: i64| g.ap(x))),
        FC::when(move |x: &i64| p(*x), move |x| f.ap(x)),
        FC::then_if(&FC::lift(move |x: i64| g.ap(x)), &FC::lift(move |x: i64| f.ap(x)), move |x: &i64| p(*x)),
        FC::sequence([0, 1].map(|c| move |x: i64| f.ap(x + c)).into_iter().collect()),
        FC::identity_morphism(),
    ];
    here(cx, "FunctionCategory", n, |x| d.iter().map(|d| d(x)).collect::<Vec<_>>(), |x| vec![f.ap(g.ap(x)), if p(x) { f.ap(x) } else { x }, wthen(f, g, x), f.ap(f.ap(x) + 1), x]);
    let l = FC::lift(move |x: i64| f.ap(x));
    let m = FC::lift(move |x: i64| g.ap(x));
    let (one_, two, spl, comb, both) = (FC::first::<i64, i64, i64>(&l), FC::second::<i64, i64, i64>(&l), FC::split(&l, &m), FC::combine_morphisms(&l, &m), FC::both(move |x: i64| f.ap(x)));
    here(
        cx,
        "FunctionCategory.pairs",
        n,
        |x| (one_((x, 1)), two((2, x)), spl(x), comb((x, x + 1)), both((x, x - 1))),
        |x| ((f.ap(x), 1), (2, f.ap(x)), (f.ap(x), g.ap(x)), (f.ap(x), g.ap(x + 1)), (f.ap(x), f.ap(x - 1))),
    );
}
fn wthen(f: Fun, g: Fun, x: i64) -> i64 {
    // then_if(first, second, predicate): as its documentation shows
    let y = g.ap(x);
    if f.pred(y) { f.ap(y) } else { y }
}

pub fn functions(cx: &mut Ctx, r: &mut Rng) {
    let n = runs(cx);
    let (f, g, k) = (Fun::gen_(r), Fun::gen_(r), r.small());
    let (cmp, pip, fl, lo, kf) = (
        cu::compose(move |x: i64| f.ap(x), move |x: i64| g.ap(x)),
        cu::pipe(move |x: i64| f.ap(x), move |x: i64| g.ap(x)),
        cu::flip(move |a: i64, b: i64| g.ap2(a, b)),
        hu::lift_option(move |x: i64| f.ap(x)),
        fu::const_fn::<i64, i64>(k),
    );
    worn(cx, "functions", n, |x| (cmp(x), pip(x), fl(x, 3), lo((x % 2 == 0).then_some(x)), kf(x)), |x| (f.ap(g.ap(x)), g.ap(f.ap(x)), g.ap2(3, x), (x % 2 == 0).then(|| f.ap(x)), k));
    let all = hu::compose_all::<i64, i64>(vec![Box::new(move |x| f.ap(x)), Box::new(move |x| g.ap(x)), Box::new(|x| x ^ 1)]);
    here(cx, "compose_all", n, |x| all(x), |x| g.ap(f.ap(x)) ^ 1);
}
pub fn contexts(cx: &mut Ctx, r: &mut Rng) {
    let n = runs(cx);
    let k = r.small();
    let (cf, ca) = (context_fn::<i64, _>(format!("ctx{k}")), context_accumulator::<i64, _, _>(vec!["a".to_string(), "b".to_string()]));
    worn(cx, "context_fn", n, |x| (cf(x).error_chain(), ca(x).error_chain(), accumulate_context(x, ["p", "q"]).error_chain()), |x| (format!("ctx{k} -> {x}"), format!("b -> a -> {x}"), format!("q -> p -> {x}")));
}
