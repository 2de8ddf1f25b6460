use mon::*;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use std::fmt::Debug;

/// a log type with its meaning for a list of told events
trait W: Monoid + Clone + Debug + PartialEq + 'static {
    const NAME: &'static str;
    fn of(ev: &[i64]) -> Self;
}
macro_rules! w {
    ($($t:ty, $n:expr, $f:expr);* $(;)?) => { $(impl W for $t {
        const NAME: &'static str = $n;
        fn of(ev: &[i64]) -> Self { let f: fn(&[i64]) -> $t = $f; f(ev) }
    })* };
}
w!(
    Vec<i64>, "Vec", |e| e.to_vec();
    String, "String", |e| e.iter().map(|x| format!("<{x}>")).collect();
    PersistentVector<i64>, "PVec", |e| PersistentVector::from_slice(e);
    Sum<i64>, "Sum", |e| Sum(e.iter().sum());
    Product<i64>, "Product", |e| Product(e.iter().fold(1i64, |a, b| a * (b.rem_euclid(2) + 1)));
    First<i64>, "First", |e| First(e.first().copied());
    Last<i64>, "Last", |e| Last(e.last().copied());
    Max<u64>, "Max", |e| Max(e.iter().map(|x| x.unsigned_abs()).max().unwrap_or(0));
    Writer<Vec<i64>, String>, "Writer", |e| Writer::new(e.to_vec(), e.iter().map(|x| format!("{x},")).collect());
    // a log whose neutral element is not its default-looking value
    Tagged, "Tagged", |e| Tagged(e.to_vec());
);
/// a user-defined log
#[derive(Clone, Debug, PartialEq)]
struct Tagged(Vec<i64>);
impl Semigroup for Tagged {
    fn combine(&self, o: &Self) -> Self {
        Tagged([&self.0[..], &o.0[..]].concat())
    }
    fn combine_owned(mut self, o: Self) -> Self {
        self.0.extend(o.0);
        self
    }
}
impl Monoid for Tagged {
    fn empty() -> Self {
        Tagged(vec![])
    }
}

#[derive(Clone, Debug, Hash)]
enum P {
    Pure(i64, u8),
    New(Vec<i64>, i64),
    Tell(Vec<i64>, i64),
    Fmap(Box<P>, Fun, bool),
    Replace(Box<P>, i64, bool),
    Bind(Box<P>, Fun, Vec<P>, u8),
    Join(Box<P>, Box<P>, bool),
    Apply(Box<P>, Box<P>, Fun, bool),
    Lift2(Box<P>, Box<P>, Fun, u8),
    Lift3(Box<P>, Box<P>, Box<P>, Fun, bool),
    SeqL(Box<P>, Box<P>, bool),
    SeqR(Box<P>, Box<P>, bool),
    TellThen(Vec<i64>, Box<P>),
    MapPure(Box<P>, Fun),
    Chain(Vec<P>),
}
/// one fresh number per told event, so that loss, duplication and reordering are visible
fn evs(r: &mut Rng, next: &mut i64) -> Vec<i64> {
    let n = if r.chance(1, 12) { 40 + r.below(40) } else { r.below(4) };
    (0..n)
        .map(|_| {
            *next += 1;
            *next * if r.chance(1, 2) { 1 } else { -1 }
        })
        .collect()
}
fn gen_p(r: &mut Rng, d: usize, next: &mut i64) -> P {
    let f = Fun::gen_(r);
    let b = r.chance(1, 2);
    if d == 0 || r.chance(1, 8) {
        return match r.below(3) {
            0 => P::Pure(r.small(), r.below(3) as u8),
            1 => P::New(evs(r, next), r.small()),
            _ => P::Tell(evs(r, next), r.small()),
        };
    }
    let mut s = |r: &mut Rng| Box::new(gen_p(r, d - 1, next));
    match r.below(16) {
        0 | 1 => P::Fmap(s(r), f, b),
        2 => P::Replace(s(r), r.small(), b),
        3..=6 => {
            let p = s(r);
            let n = 1 + r.below(2);
            P::Bind(p, f, (0..n).map(|_| *s(r)).collect(), r.below(4) as u8)
        },
        7 => P::Join(s(r), s(r), b),
        8 => P::Apply(s(r), s(r), f, b),
        9 => P::Lift2(s(r), s(r), f, r.below(3) as u8),
        10 => P::Lift3(s(r), s(r), s(r), f, b),
        11 => P::SeqL(s(r), s(r), b),
        12 => P::SeqR(s(r), s(r), b),
        13 => {
            let p = s(r);
            P::TellThen(evs(r, next), p)
        },
        14 => P::MapPure(s(r), f),
        _ => {
            let n = r.below(5);
            P::Chain((0..n).map(|_| *s(r)).collect())
        },
    }
}
/// a long run of small steps, nested to the left, to the right or both
fn long_p(r: &mut Rng, next: &mut i64) -> P {
    let n = 10 + r.below(180);
    let mut p = gen_p(r, 1, next);
    for _ in 0..n {
        let f = Fun::gen_(r);
        let b = r.chance(1, 2);
        p = match r.below(12) {
            0 => P::Fmap(Box::new(p), f, b),
            1 => P::SeqL(Box::new(p), Box::new(gen_p(r, 0, next)), b),
            2 => P::SeqR(Box::new(p), Box::new(gen_p(r, 0, next)), b),
            3 => P::TellThen(evs(r, next), Box::new(p)),
            4 => P::Lift2(Box::new(gen_p(r, 0, next)), Box::new(p), f, r.below(3) as u8),
            5 => P::Apply(Box::new(p), Box::new(gen_p(r, 0, next)), f, b),
            6 => P::Join(Box::new(p), Box::new(gen_p(r, 0, next)), b),
            7 => P::Bind(Box::new(gen_p(r, 0, next)), f, vec![p], r.below(4) as u8),
            _ => P::Bind(Box::new(p), f, vec![gen_p(r, 0, next)], r.below(4) as u8),
        };
    }
    p
}
type Wr<L, T> = Writer<L, T>;
fn build<L: W>(p: &P) -> Wr<L, i64> {
    let go = |p: &P| build::<L>(p);
    match p {
        P::Pure(v, 0) => Writer::pure_value(*v),
        P::Pure(v, 1) => <Wr<L, ()> as Pure>::pure(v),
        P::Pure(v, _) => <Wr<L, ()> as Pure>::pure_owned(*v),
        P::New(e, v) => Writer::new(L::of(e), *v),
        P::Tell(e, v) => Writer::<L, ()>::tell(L::of(e)).fmap(|()| *v),
        P::Fmap(p, f, true) => go(p).fmap_owned(|a| f.ap(a)),
        P::Fmap(p, f, false) => go(p).fmap(|a| f.ap(*a)),
        P::Replace(p, v, true) => go(p).replace(v),
        P::Replace(p, v, false) => go(p).replace_owned(*v),
        P::Bind(p, f, ks, how) => {
            let k = |a: i64| go(&ks[f.small(a, ks.len() as u64) as usize]).fmap_owned(|b| f.ap2(a, b));
            match how {
                0 => go(p).bind(|a| k(*a)),
                1 => go(p).bind_owned(k),
                2 => go(p).flat_map(|a| k(*a)),
                _ => go(p).flat_map_owned(k),
            }
        },
        P::Join(p, q, o) => {
            let q = go(q);
            let nested: Wr<L, Wr<L, i64>> = go(p).fmap(|a| q.fmap(|b| a.wrapping_sub(*b)));
            if *o { nested.join_owned() } else { nested.join() }
        },
        P::Apply(p, q, f, true) => go(p).fmap(|a| { let (a, f) = (*a, *f); move |b: i64| f.ap2(a, b) }).apply_owned(go(q)),
        P::Apply(p, q, f, false) => go(p).fmap(|a| { let (a, f) = (*a, *f); move |b: &i64| f.ap2(a, *b) }).apply(&go(q)),
        P::Lift2(p, q, f, 0) => Wr::<L, i64>::lift2(|a: &i64, b: &i64| f.ap2(*a, *b), &go(p), &go(q)),
        P::Lift2(p, q, f, 1) => Wr::<L, i64>::lift2_owned(|a: i64, b: i64| f.ap2(a, b), go(p), go(q)),
        P::Lift2(p, q, f, _) => Wr::<L, i64>::ap2(|a: &i64, b: &i64| f.ap2(*a, *b), &go(p), &go(q)),
        P::Lift3(p, q, s, f, true) => Wr::<L, i64>::lift3_owned(|a, b, c| f.ap3(a, b, c), go(p), go(q), go(s)),
        P::Lift3(p, q, s, f, false) => Wr::<L, i64>::lift3(|a: &i64, b: &i64, c: &i64| f.ap3(*a, *b, *c), &go(p), &go(q), &go(s)),
        P::SeqL(p, q, true) => Wr::<L, i64>::sequence_left_owned(go(p), go(q)),
        P::SeqL(p, q, false) => Wr::<L, i64>::sequence_left(&go(p), &go(q)),
        P::SeqR(p, q, true) => Wr::<L, i64>::sequence_right_owned(go(p), go(q)),
        P::SeqR(p, q, false) => Wr::<L, i64>::sequence_right(&go(p), &go(q)),
        P::TellThen(e, p) => {
            let p = go(p);
            Writer::<L, ()>::tell(L::of(e)).bind(|()| p.clone())
        },
        P::MapPure(p, f) => go(p).map_and_pure(|a| f.ap(*a)),
        P::Chain(ps) => {
            let mut acc: Wr<L, i64> = Writer::pure_value(1);
            for p in ps {
                acc = acc.bind(|a| go(p).fmap(|b| a.wrapping_mul(3).wrapping_add(*b)));
            }
            acc
        },
    }
}
fn run(p: &P, log: &mut Vec<i64>) -> i64 {
    match p {
        P::Pure(v, _) => *v,
        P::New(e, v) | P::Tell(e, v) => {
            log.extend(e);
            *v
        },
        P::Fmap(p, f, _) | P::MapPure(p, f) => f.ap(run(p, log)),
        P::Replace(p, v, _) => {
            run(p, log);
            *v
        },
        P::Bind(p, f, ks, _) => {
            let a = run(p, log);
            let b = run(&ks[f.small(a, ks.len() as u64) as usize], log);
            f.ap2(a, b)
        },
        P::Join(p, q, _) => {
            let a = run(p, log);
            a.wrapping_sub(run(q, log))
        },
        P::Apply(p, q, f, _) | P::Lift2(p, q, f, _) => {
            let a = run(p, log);
            f.ap2(a, run(q, log))
        },
        P::Lift3(p, q, s, f, _) => {
            let a = run(p, log);
            let b = run(q, log);
            f.ap3(a, b, run(s, log))
        },
        P::SeqL(p, q, _) => {
            let a = run(p, log);
            run(q, log);
            a
        },
        P::SeqR(p, q, _) => {
            run(p, log);
            run(q, log)
        },
        P::TellThen(e, p) => {
            log.extend(e);
            run(p, log)
        },
        P::Chain(ps) => ps.iter().fold(1i64, |a, p| a.wrapping_mul(3).wrapping_add(run(p, log))),
    }
}

fn main() {
    main_with("C19", |cx| {
        cx.rule = "a case is a random writer program (tell/new/pure/map/replace/bind/flat_map/join/apply/lift/sequence in borrowing and consuming forms, any nesting); every told event is a fresh number and \
                   the final log and value are compared with a straight-line interpreter, for each of ten log types. Distinct by (log type, program)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(96_000, 6_000_000);
        cx.par(8, |cx, _| {
            for i in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let mut next = 0;
                let d = 1 + r.below(5);
                let p = if r.chance(1, 60) { long_p(&mut r, &mut next) } else { gen_p(&mut r, d, &mut next) };
                let mut ev = vec![];
                let v = run(&p, &mut ev);
                if ev.len() > 1 {
                    cx.count("several_events", 1);
                }
                cx.max("events", ev.len() as u64);
                one::<Vec<i64>>(cx, &p, &ev, v);
                one::<String>(cx, &p, &ev, v);
                match i % 8 {
                    0 => one::<PersistentVector<i64>>(cx, &p, &ev, v),
                    1 => one::<Sum<i64>>(cx, &p, &ev, v),
                    2 => {
                        if ev.len() < 60 {
                            one::<Product<i64>>(cx, &p, &ev, v)
                        }
                    },
                    3 => one::<First<i64>>(cx, &p, &ev, v),
                    4 => one::<Last<i64>>(cx, &p, &ev, v),
                    5 => one::<Max<u64>>(cx, &p, &ev, v),
                    6 => one::<Writer<Vec<i64>, String>>(cx, &p, &ev, v),
                    _ => one::<Tagged>(cx, &p, &ev, v),
                }
                combos(cx, &mut r);
                if i % 500 == 0 {
                    long(cx, &mut r);
                }
            }
        });
        cx.require("several_events", 1000);
    });
}
fn one<L: W>(cx: &mut Ctx, p: &P, ev: &[i64], v: i64) {
    let c = || format!("log {}: {p:?}", L::NAME);
    cx.case(L::NAME, p, ev.len() > 1, c);
    let want = (L::of(ev), v);
    let nm = L::NAME;
    if let Some(w) = cx.guard(&format!("writer.{nm}"), c, || build::<L>(p)) {
        cx.eq(&format!("writer.{nm}.unwrap"), &w.unwrap(), &v, c);
        cx.eq(&format!("writer.{nm}.value"), w.value(), &v, c);
        cx.eq(&format!("writer.{nm}.iter"), &(&w).into_iter().copied().collect::<Vec<_>>(), &vec![v], c);
        cx.eq(&format!("writer.{nm}.log"), &w.clone().log(), &want.0, c);
        cx.eq(&format!("writer.{nm}.into_value"), &w.clone().into_value(), &v, c);
        cx.eq(&format!("writer.{nm}.run"), &w.run(), &want, c);
    }
    // building the same program again tells the same again: nothing is kept between runs
    if let Some(w) = cx.guard(&format!("writer.{nm}.again"), c, || build::<L>(p).run()) {
        cx.eq(&format!("writer.{nm}.again"), &w, &want, c);
    }
}
/// combining writers as monoids concatenates logs and values
fn combos(cx: &mut Ctx, r: &mut Rng) {
    let mut next = 0;
    let ps: Vec<(Vec<i64>, String)> = (0..r.below(5)).map(|_| (evs(r, &mut next), r.string())).collect();
    let ws: Vec<Writer<Vec<i64>, String>> = ps.iter().map(|(e, s)| Writer::new(e.clone(), s.clone())).collect();
    let want: (Vec<i64>, String) = (ps.iter().flat_map(|p| p.0.clone()).collect(), ps.iter().map(|p| p.1.clone()).collect());
    let c = || format!("{ps:?}");
    let e = || Writer::<Vec<i64>, String>::empty();
    if let Some((a, b, d)) = cx.guard("writer.combine", c, || {
        (
            ws.iter().fold(e(), |a, b| a.combine(b)).run(),
            ws.iter().cloned().fold(e(), |a, b| a.combine_owned(b)).run(),
            ws.iter().rev().fold(e(), |a, b| b.combine(&a)).run(),
        )
    }) {
        cx.eq("writer.combine", &a, &want, c);
        cx.eq("writer.combine_owned", &b, &want, c);
        cx.eq("writer.combine.right", &d, &want, c);
    }
    // min-log: combining keeps the smallest
    if let [(a, _), (b, _), ..] = &ps[..] {
        if let (Some(x), Some(y)) = (a.first(), b.first()) {
            let w = Writer::new(Min(*x), 1).bind(|v| Writer::new(Min(*y), v + 1)).run();
            cx.eq("writer.Min.run", &w, &(Min(*x.min(y)), 2), c);
        }
    }
}
/// many steps: the log is complete however the chain is nested
fn long(cx: &mut Ctx, r: &mut Rng) {
    let n = 50 + r.below(400);
    let k = |i: i64| Writer::new(vec![i], i);
    let want: Vec<i64> = (0..n as i64).collect();
    let left = (1..n as i64).fold(k(0), |w, i| w.bind(|_| k(i)));
    let left_o = (1..n as i64).fold(k(0), |w, i| w.bind_owned(move |_| k(i)));
    fn right(i: i64, n: i64) -> Writer<Vec<i64>, i64> {
        let w = Writer::new(vec![i], i);
        if i + 1 == n { w } else { w.bind(|_| right(i + 1, n)) }
    }
    let c = || format!("chain of {n}");
    cx.eq("writer.long.left", &left.run(), &(want.clone(), n as i64 - 1), c);
    cx.eq("writer.long.left_owned", &left_o.run(), &(want.clone(), n as i64 - 1), c);
    cx.eq("writer.long.right", &right(0, n as i64).run(), &(want, n as i64 - 1), c);
}
