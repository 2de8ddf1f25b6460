//! Descriptions that run themselves, a few levels deep, from inside one of their own steps.
//! The descriptions are plain values, so a run started while another run of the same description
//! is in progress must be as good as any other; compared with ordinary recursive functions.
use crate::*;
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::io::IO;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::{State, get, modify, put};
use rustica::transformers::{ContT, ReaderT, StateT};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, OnceLock};

/// the knot: what a step does with its number, given the whole description
fn step(f: Fun, n: i64, own: impl Fn(i64) -> i64) -> i64 {
    if n <= 0 { f.ap(n) % 50 } else { (own(n - 1) % 1000) * 3 + n }
}
type Own<T> = Arc<OnceLock<T>>;
fn note(cx: &mut Ctx, what: &'static str, which: usize, f: Fun, g: Fun, n: i64) -> String {
    cx.case(what, &(which, f, g, n), true, || format!("{what} {which} {f:?} {g:?} {n}"));
    cx.count("inside_itself", 1);
    format!("{what} {which} running itself, {f:?} {g:?} from {n}")
}

pub fn state(cx: &mut Ctx, r: &mut Rng) {
    let (f, g, n) = (Fun::gen_(r), Fun::gen_(r), r.below(5) as i64);
    fn plain(w: usize, f: Fun, g: Fun, s: i64) -> (i64, i64) {
        let knot = |s: i64| {
            if s <= 0 {
                (f.ap(s) % 50, s)
            } else {
                let (a, t) = plain(w, f, g, s - 1);
                ((a % 1000) * 3 + s, t % 1000 + s)
            }
        };
        match w {
            0 => {
                let (a, t) = knot(s);
                (g.ap(a), t)
            },
            1 => {
                let (a, t) = knot(s);
                (g.ap2(a, s), t)
            },
            2 => knot(s - 1),
            3 => {
                let (a, t) = knot(s);
                (g.ap(a), t)
            },
            _ => {
                let (a, _) = knot(s);
                (a, a)
            },
        }
    }
    for w in 0..5 {
        let own: Own<State<i64, i64>> = Own::default();
        let o = own.clone();
        let knot = State::new(move |s: i64| {
            if s <= 0 {
                (f.ap(s) % 50, s)
            } else {
                let (a, t) = o.get().unwrap().run_state(s - 1);
                ((a % 1000) * 3 + s, t % 1000 + s)
            }
        });
        let k2 = knot.clone();
        let whole = match w {
            0 => knot.fmap(move |a| g.ap(a)),
            1 => get::<i64>().bind(move |s| k2.clone().fmap(move |a| g.ap2(a, s))),
            2 => modify(|s: i64| s - 1).bind(move |_| k2.clone()),
            3 => State::pure(Arc::new(move |a: i64| g.ap(a)) as Arc<dyn Fn(i64) -> i64 + Send + Sync>).bind(move |h| k2.clone().fmap(move |a| h(a))),
            _ => knot.bind(put).bind(|_| get()),
        };
        let _ = own.set(whole.clone());
        let d = note(cx, "knot.state", w, f, g, n);
        if let Some(got) = cx.guard("knot.state", || d.clone(), || (whole.run_state(n), whole.eval_state(n), whole.exec_state(n))) {
            let (a, s) = plain(w, f, g, n);
            cx.eq("knot.state", &got, &((a, s), a, s), || d.clone());
        }
    }
    type R = Result<(i64, i64), String>;
    type T = StateT<i64, R, i64>;
    fn plain_t(w: usize, f: Fun, g: Fun, s: i64) -> R {
        let knot = |s: i64| -> R {
            if s <= 0 {
                if f.small(s, 4) == 0 { Err("bottom".into()) } else { Ok((s, f.ap(s) % 50)) }
            } else {
                let (t, a) = plain_t(w, f, g, s - 1)?;
                Ok((t % 1000 + s, (a % 1000) * 3 + s))
            }
        };
        let (t, a) = knot(s)?;
        Ok(match w {
            0 => (t, g.ap(a)),
            1 => (t + 1, g.ap2(a, t)),
            _ => (s, g.ap2(a, s)),
        })
    }
    for w in 0..3 {
        let own: Own<T> = Own::default();
        let o = own.clone();
        let knot: T = StateT::new(move |s: i64| {
            if s <= 0 {
                if f.small(s, 4) == 0 { Err("bottom".into()) } else { Ok((s, f.ap(s) % 50)) }
            } else {
                let (t, a) = o.get().unwrap().run_state(s - 1)?;
                Ok((t % 1000 + s, (a % 1000) * 3 + s))
            }
        });
        let whole: T = match w {
            0 => knot.fmap_with(move |a| g.ap(a), |m: R, h| m.map(|x| h(x))),
            1 => knot.bind_with(move |a| StateT::new(move |t: i64| Ok((t + 1, g.ap2(a, t)))), |m: R, h: Box<dyn Fn((i64, i64)) -> R + Send + Sync>| m.and_then(|x| h(x))),
            _ => knot.combine_with(&StateT::new(|s: i64| Ok((s, s))), move |a, b| g.ap2(a, b), |a: R, b: R, h| Ok(h(a?, b?))),
        };
        let _ = own.set(whole.clone());
        let d = note(cx, "knot.state_t", w, f, g, n);
        if let Some(got) = cx.guard("knot.state_t", || d.clone(), || (whole.run_state(n), whole.try_run_state(n).map_err(|e| e.core_error().clone()))) {
            let want = plain_t(w, f, g, n);
            cx.eq("knot.state_t", &got, &(want.clone(), want), || d.clone());
        }
    }
}

pub fn reader(cx: &mut Ctx, r: &mut Rng) {
    let (f, g, n) = (Fun::gen_(r), Fun::gen_(r), r.below(5) as i64);
    fn plain(w: usize, f: Fun, g: Fun, e: i64) -> i64 {
        let knot = |e: i64| step(f, e, |e| plain(w, f, g, e));
        match w {
            0 => g.ap(knot(e)),
            1 => g.ap2(e, knot(e)),
            2 => knot(e - 1),
            3 => g.ap2(knot(e), e),
            _ => g.ap2(knot(e), knot(e - 2)),
        }
    }
    for w in 0..5 {
        let own: Own<Reader<i64, i64>> = Own::default();
        let o = own.clone();
        let knot = Reader::new(move |e: i64| step(f, e, |e| o.get().unwrap().run_reader(e)));
        let k2 = knot.clone();
        let whole = match w {
            0 => knot.fmap(move |a| g.ap(a)),
            1 => Reader::<i64, i64>::new(|e| e).bind(move |e| k2.fmap(move |a| g.ap2(e, a))),
            2 => knot.local(|e| e - 1),
            3 => knot.combine(&Reader::new(|e: i64| e), move |a, b| g.ap2(a, b)),
            _ => knot.combine(&k2.local(|e| e - 2), move |a, b| g.ap2(a, b)),
        };
        let _ = own.set(whole.clone());
        let d = note(cx, "knot.reader", w, f, g, n);
        if let Some(got) = cx.guard("knot.reader", || d.clone(), || whole.run_reader(n)) {
            cx.eq("knot.reader", &got, &plain(w, f, g, n), || d.clone());
        }
    }
    type T = ReaderT<i64, Option<i64>, i64>;
    fn plain_t(w: usize, f: Fun, g: Fun, e: i64) -> Option<i64> {
        let knot = |e: i64| -> Option<i64> {
            if e <= 0 { (f.small(e, 4) != 0).then(|| f.ap(e) % 50) } else { Some((plain_t(w, f, g, e - 1)? % 1000) * 3 + e) }
        };
        Some(match w {
            0 => g.ap(knot(e)?),
            1 => g.ap2(knot(e)?, e),
            2 => knot(e - 1)?,
            _ => g.ap2(knot(e)?, e),
        })
    }
    for w in 0..4 {
        let own: Own<T> = Own::default();
        let o = own.clone();
        let knot: T = ReaderT::new(move |e: i64| if e <= 0 { (f.small(e, 4) != 0).then(|| f.ap(e) % 50) } else { Some((o.get().unwrap().run_reader(e - 1)? % 1000) * 3 + e) });
        let whole: T = match w {
            0 => knot.fmap(move |a| g.ap(a)),
            1 => knot.bind(move |a| ReaderT::new(move |e: i64| Some(g.ap2(a, e)))),
            2 => knot.local(|e| e - 1),
            _ => knot.combine(&ReaderT::new(|e: i64| Some(e)), move |a, b| g.ap2(a, b)),
        };
        let _ = own.set(whole.clone());
        let d = note(cx, "knot.reader_t", w, f, g, n);
        if let Some(got) = cx.guard("knot.reader_t", || d.clone(), || whole.run_reader(n)) {
            cx.eq("knot.reader_t", &got, &plain_t(w, f, g, n), || d.clone());
        }
    }
}

pub fn cont(cx: &mut Ctx, r: &mut Rng) {
    let (f, g, n) = (Fun::gen_(r), Fun::gen_(r), r.below(5) as i64);
    // the number of runs in progress stands for the argument
    fn plain(w: usize, f: Fun, g: Fun, n: i64) -> i64 {
        let knot = step(f, n, |m| plain(w, f, g, m));
        match w {
            0 | 2 => g.ap(knot),
            1 => g.ap2(knot, 3),
            _ => if knot % 2 == 0 { g.ap(knot) } else { knot },
        }
    }
    for w in 0..4 {
        let own: Own<Cont<i64, i64>> = Own::default();
        let (o, left) = (own.clone(), Arc::new(AtomicI64::new(n)));
        let l = left.clone();
        let knot = Cont::new(move |k: Arc<dyn Fn(i64) -> i64 + Send + Sync>| {
            let m = l.load(Ordering::SeqCst);
            let a = step(f, m, |m| {
                l.store(m, Ordering::SeqCst);
                o.get().unwrap().run(|a| a)
            });
            k(a)
        });
        let k2 = knot.clone();
        let whole: Cont<i64, i64> = match w {
            0 => knot.fmap(move |a| g.ap(a)),
            1 => knot.bind(move |a| Cont::pure(g.ap2(a, 3))),
            2 => knot.apply(Cont::pure(Arc::new(move |a: i64| g.ap(a)))),
            _ => ContT::call_cc(move |exit: Arc<dyn Fn(i64) -> ContT<i64, rustica::datatypes::id::Id<i64>, i64> + Send + Sync>| {
                ContT::from_cont(k2.clone()).bind(move |a| if a % 2 == 0 { exit(g.ap(a)) } else { ContT::pure(a) })
            })
            .to_cont(),
        };
        let _ = own.set(whole.clone());
        let d = note(cx, "knot.cont", w, f, g, n);
        for _ in 0..2 {
            left.store(n, Ordering::SeqCst);
            if let Some(got) = cx.guard("knot.cont", || d.clone(), || whole.run(|a| a)) {
                cx.eq("knot.cont", &got, &plain(w, f, g, n), || d.clone());
            }
        }
    }
}

pub fn io(cx: &mut Ctx, r: &mut Rng) {
    let (f, g, n) = (Fun::gen_(r), Fun::gen_(r), r.below(5) as i64);
    fn plain(w: usize, f: Fun, g: Fun, n: i64) -> Result<i64, ()> {
        let knot = if n <= 0 {
            if w == 6 { Err(()) } else { Ok(f.ap(n) % 50) }
        } else {
            plain(w, f, g, n - 1).map(|a| (a % 1000) * 3 + n)
        };
        match w {
            0 | 2 => Ok(g.ap(knot?)),
            1 | 3 => Ok(g.ap2(knot?, 3)),
            4 => Ok(g.ap2(g.ap2(1, knot?), 5)),
            _ => Ok(knot.unwrap_or(17)),
        }
    }
    for w in 0..7 {
        let own: Own<IO<i64>> = Own::default();
        let (o, left) = (own.clone(), Arc::new(AtomicI64::new(n)));
        let l = left.clone();
        let knot = IO::new(move || {
            let m = l.load(Ordering::SeqCst);
            if m <= 0 && w == 6 {
                inject(3);
            }
            step(f, m, |m| {
                l.store(m, Ordering::SeqCst);
                o.get().unwrap().run()
            })
        });
        let whole = match w {
            0 => knot.fmap(move |a| g.ap(a)),
            1 => knot.bind(move |a| IO::pure(g.ap2(a, 3))),
            2 => knot.apply(IO::pure(move |a: i64| g.ap(a))),
            3 => IO::<i64>::combine(&knot, &IO::pure(3)).fmap(move |(a, b)| g.ap2(a, b)),
            4 => IO::sequence(vec![knot, IO::pure(5)]).fmap(move |v| v.iter().fold(1, |a, b| g.ap2(a, *b))),
            5 => knot.recover_with(17),
            _ => knot.recover(|_| IO::pure(17)),
        };
        let _ = own.set(whole.clone());
        let d = note(cx, "knot.io", w, f, g, n);
        for try_get in [false, true] {
            left.store(n, Ordering::SeqCst);
            let got = quiet(|| if try_get { whole.try_get().map_err(|_| ()) } else { Ok(whole.run()) }).unwrap_or(Err(()));
            cx.eq("knot.io", &got, &plain(w, f, g, n), || d.clone());
        }
    }
}

pub fn asyncm(cx: &mut Ctx, r: &mut Rng, rt: &tokio::runtime::Runtime) {
    let (f, g, n) = (Fun::gen_(r), Fun::gen_(r), r.below(5) as i64);
    let yields = r.chance(1, 2);
    fn plain(w: usize, f: Fun, g: Fun, n: i64) -> i64 {
        let knot = step(f, n, |m| plain(w, f, g, m));
        match w {
            0 => g.ap(knot),
            1 | 2 => g.ap2(knot, 3),
            3 => g.ap(knot),
            _ => knot,
        }
    }
    for w in 0..5 {
        let own: Own<AsyncM<i64>> = Own::default();
        let (o, left) = (own.clone(), Arc::new(AtomicI64::new(n)));
        let l = left.clone();
        let part = move || {
            let (o, l) = (o.clone(), l.clone());
            async move {
                let m = l.load(Ordering::SeqCst);
                if yields {
                    tokio::task::yield_now().await;
                }
                if m <= 0 {
                    return f.ap(m) % 50;
                }
                l.store(m - 1, Ordering::SeqCst);
                let own = o.get().unwrap().clone();
                let again: std::pin::Pin<Box<dyn Future<Output = i64> + Send>> = Box::pin(async move { own.try_get().await });
                (again.await % 1000) * 3 + m
            }
        };
        let knot = AsyncM::new(part.clone());
        let whole = match w {
            0 => knot.fmap(move |a| async move { g.ap(a) }),
            1 => knot.bind(move |a| async move { AsyncM::pure(g.ap2(a, 3)) }),
            2 => knot.zip_with(AsyncM::pure(3), move |a, b| g.ap2(a, b)),
            3 => knot.apply(AsyncM::pure(move |a: i64| g.ap(a))),
            _ => AsyncM::from_result_or_default(
                move || {
                    let p = part.clone();
                    async move { Ok::<i64, ()>(p().await) }
                },
                99,
            ),
        };
        let _ = own.set(whole.clone());
        let d = note(cx, "knot.async", w, f, g, n);
        for _ in 0..2 {
            left.store(n, Ordering::SeqCst);
            if let Some(got) = cx.guard("knot.async", || d.clone(), || rt.block_on(whole.try_get())) {
                cx.eq("knot.async", &got, &plain(w, f, g, n), || d.clone());
            }
        }
    }
}
