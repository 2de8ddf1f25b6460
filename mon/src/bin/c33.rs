//! C33: equality, ordering, hashing and copies of library values follow their contents.
#![allow(deprecated)]
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IOError;
use rustica::datatypes::maybe::{Maybe, MaybeError};
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::error::{ComposableError, ErrorContext};
use rustica::pvec::PVecError;
use rustica::traits::functor::Functor;
use rustica::utils::error_utils::AppError;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

/// content of a value: which alternative, then its parts in order
type Key<T> = (u8, Vec<T>, Vec<T>);
/// an element with an identity that equality cannot see
#[derive(Clone, Debug)]
struct Elt(i64, #[allow(dead_code)] u64);
impl PartialEq for Elt {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Elt {}
impl PartialOrd for Elt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Elt {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for Elt {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
fn key(r: &mut Rng, multi: bool) -> Key<i64> {
    let list = |r: &mut Rng, n: usize| (0..n).map(|_| r.range(0, 2)).collect::<Vec<i64>>();
    let n = if multi { *r.pick(&[0, 1, 1, 2, 3, 7, 8, 9, 12]) } else { 1 };
    (r.below(2) as u8, list(r, n), list(r, 1))
}
/// laws over a pool of values with known contents; `same_side` says when two contents belong to the same alternative
fn laws<T: Clone + Debug + PartialEq + Eq + PartialOrd + Ord + Hash>(cx: &mut Ctx, ty: &str, pool: &[(Key<i64>, T)], in_order: bool) {
    let c = |i: usize, j: usize| format!("{ty}: {:?} and {:?}", pool[i].1, pool[j].1);
    for i in 0..pool.len() {
        for j in 0..pool.len() {
            let ((ka, a), (kb, b)) = (&pool[i], &pool[j]);
            let d = || c(i, j);
            cx.case(ty, &(ka, kb), i != j, d);
            cx.eq(&format!("{ty}.eq"), &(a == b, a != b), &(ka == kb, ka != kb), d);
            let o = a.cmp(b);
            cx.eq(&format!("{ty}.cmp_eq"), &(o == Ordering::Equal), &(ka == kb), d);
            cx.eq(&format!("{ty}.cmp_flip"), &b.cmp(a), &o.reverse(), d);
            cx.eq(&format!("{ty}.partial_cmp"), &(a.partial_cmp(b), a < b, a <= b, a > b, a >= b), &(Some(o), o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()), d);
            cx.eq(&format!("{ty}.max_min"), &(a.clone().max(b.clone()), a.clone().min(b.clone())), &if o.is_le() { (b.clone(), a.clone()) } else { (a.clone(), b.clone()) }, d);
            if ka == kb {
                cx.eq(&format!("{ty}.hash"), &(hash_of(a), mon::word_hash_of(a)), &(hash_of(b), mon::word_hash_of(b)), d);
                cx.count("equal_pairs", 1);
            }
            if in_order && ka.0 == kb.0 {
                cx.eq(&format!("{ty}.content_order"), &o, &(&ka.1, &ka.2).cmp(&(&kb.1, &kb.2)), d);
            }
            for k in 0..pool.len() {
                let x = &pool[k].1;
                if o.is_le() && b.cmp(x).is_le() && !a.cmp(x).is_le() {
                    cx.violation(format!("{ty}.transitive"), format!("{} and {x:?}", d()));
                }
            }
        }
    }
    // as keys of sets
    let keys: BTreeSet<&Key<i64>> = pool.iter().map(|p| &p.0).collect();
    let hs: HashSet<&T> = pool.iter().map(|p| &p.1).collect();
    let bs: BTreeSet<&T> = pool.iter().map(|p| &p.1).collect();
    let d = || format!("{ty}: {pool:?}");
    cx.eq(&format!("{ty}.sets"), &(hs.len(), bs.len()), &(keys.len(), keys.len()), d);
    let mut sorted: Vec<&T> = pool.iter().map(|p| &p.1).collect();
    sorted.sort();
    cx.eq(&format!("{ty}.sort"), &sorted.windows(2).all(|w| w[0] <= w[1]), &true, d);
    // a copy is equal and stays so
    for (_, a) in pool {
        let b = a.clone();
        cx.eq(&format!("{ty}.clone"), &(b == *a, hash_of(&b) == hash_of(a), format!("{b:?}") == format!("{a:?}")), &(true, true, true), d);
    }
}
fn choice(r: &mut Rng, xs: &[Elt]) -> Choice<Elt> {
    match xs.split_first() {
        None => Choice::new_empty(),
        Some((f, rest)) => match r.below(5) {
            0 => Choice::new(f.clone(), rest.to_vec()),
            1 => xs.iter().cloned().collect(),
            2 => Choice::from(xs),
            // longer once, then cut back: the buffer stays spilled
            3 => {
                let mut c = Choice::new(f.clone(), rest.iter().cloned().chain((0..12).map(|i| Elt(i, 0))));
                for _ in 0..12 {
                    c = c.remove_alternative(rest.len());
                }
                c
            },
            _ => Choice::new(f.clone(), vec![]).add_alternatives(rest.to_vec()),
        },
    }
}
fn validated(r: &mut Rng, k: &Key<i64>, e: &dyn Fn(i64) -> Elt) -> Validated<Elt, Elt> {
    if k.0 == 0 || k.1.is_empty() {
        return Validated::Valid(e(k.2[0]));
    }
    let es: Vec<Elt> = k.1.iter().map(|x| e(*x)).collect();
    match r.below(4) {
        0 => Validated::invalid_vec(es),
        1 => Validated::invalid_many(es),
        2 => es.into_iter().map(Validated::<Elt, Elt>::invalid).reduce(|a, b| a.combine_errors(&b)).unwrap(),
        _ => {
            let mut v = Validated::invalid_many(es.iter().cloned().chain((0..12).map(|i| Elt(i, 0))));
            if let Some(b) = v.error_buffer_mut() {
                b.truncate(es.len());
            }
            v
        },
    }
}
fn pools(cx: &mut Ctx, r: &mut Rng) {
    let n = 4 + r.below(4);
    macro_rules! pool {
        ($ty:expr, $multi:expr, $order:expr, $norm:expr, $mk:expr) => {{
            let mut p = vec![];
            for _ in 0..n {
                let mut k = key(r, $multi);
                #[allow(clippy::redundant_closure_call)]
                ($norm)(&mut k);
                #[allow(clippy::redundant_closure_call)]
                let v = ($mk)(&mut *r, &k);
                p.push((k, v));
            }
            laws(cx, $ty, &p, $order);
        }};
    }
    let tag = std::cell::Cell::new(0u64);
    let e = |x: i64| {
        tag.set(tag.get() + 1);
        Elt(x, tag.get())
    };
    let single = |k: &mut Key<i64>| *k = (0, vec![], k.2.clone());
    let sided = |k: &mut Key<i64>| k.1.clear();
    pool!("Choice", true, true, |k: &mut Key<i64>| *k = (0, k.1.clone(), vec![]), |r: &mut Rng, k: &Key<i64>| {
        let xs: Vec<Elt> = k.1.iter().map(|x| e(*x)).collect();
        choice(r, &xs)
    });
    pool!(
        "Validated",
        true,
        true,
        |k: &mut Key<i64>| *k = if k.0 == 0 || k.1.is_empty() { (0, vec![], k.2.clone()) } else { (1, k.1.clone(), vec![0]) },
        |r: &mut Rng, k: &Key<i64>| validated(r, k, &e)
    );
    pool!("Either", false, true, sided, |_: &mut Rng, k: &Key<i64>| if k.0 == 0 { Either::<Elt, Elt>::Left(e(k.2[0])) } else { Either::Right(e(k.2[0])) });
    pool!("Maybe", false, true, |k: &mut Key<i64>| *k = (k.0, vec![], if k.0 == 0 { vec![] } else { k.2.clone() }), |_: &mut Rng, k: &Key<i64>| if k.0 == 0 {
        Maybe::Nothing
    } else {
        Maybe::Just(e(k.2[0]))
    });
    pool!("First", false, true, |k: &mut Key<i64>| *k = (k.0, vec![], if k.0 == 0 { vec![] } else { k.2.clone() }), |_: &mut Rng, k: &Key<i64>| First(k.2.first().map(|x| e(*x))));
    pool!("Last", false, true, |k: &mut Key<i64>| *k = (k.0, vec![], if k.0 == 0 { vec![] } else { k.2.clone() }), |_: &mut Rng, k: &Key<i64>| Last(k.2.first().map(|x| e(*x))));
    pool!("Id", false, true, single, |_: &mut Rng, k: &Key<i64>| Id::new(e(k.2[0])));
    pool!("Sum", false, true, single, |_: &mut Rng, k: &Key<i64>| Sum(e(k.2[0])));
    pool!("Product", false, true, single, |_: &mut Rng, k: &Key<i64>| Product(e(k.2[0])));
    pool!("Max", false, true, single, |_: &mut Rng, k: &Key<i64>| Max(e(k.2[0])));
    pool!("Min", false, true, single, |_: &mut Rng, k: &Key<i64>| Min(e(k.2[0])));
    // log and value both count
    let both = |k: &mut Key<i64>| *k = (0, k.1.clone(), k.2.clone());
    pool!("Writer", true, false, both, |_: &mut Rng, k: &Key<i64>| Writer::<Vec<Elt>, Elt>::new(k.1.iter().map(|x| e(*x)).collect(), e(k.2[0])));
    // values of one type inside another
    pool!("Nested", true, false, both, |r: &mut Rng, k: &Key<i64>| {
        let xs: Vec<Elt> = k.1.iter().map(|x| e(*x)).collect();
        Writer::<Vec<Choice<Elt>>, Id<Maybe<Elt>>>::new(vec![choice(r, &xs)], Id::new(Maybe::Just(e(k.2[0]))).fmap(|m| m.clone()))
    });
    // errors: equality only
    let (a, b) = (key(r, true), key(r, true));
    let ce = |r: &mut Rng, k: &Key<i64>| {
        let x = k.1.iter().fold(ComposableError::new(e(k.2[0])), |c, x| c.with_context(format!("c{x}")));
        let y = if r.chance(1, 2) { x.clone() } else { ComposableError::new(e(k.2[0])).with_contexts(k.1.iter().map(|x| format!("c{x}"))) };
        let y = if x.context() == y.context() { y } else { x };
        if k.0 == 0 { y } else { y.set_code(k.2[0] as u32) }
    };
    let d = || format!("{a:?} {b:?}");
    cx.case("errors", &(&a, &b), a != b, d);
    cx.eq("ComposableError.eq", &(ce(r, &a) == ce(r, &b), ce(r, &a) == ce(r, &a)), &(a == b, true), d);
    let (s, t) = (format!("{}", a.2[0]), format!("{}", b.2[0]));
    let same = s == t;
    cx.eq("ErrorContext.eq", &(ErrorContext::new(s.clone()) == ErrorContext::new(t.clone())), &same, d);
    if same {
        cx.eq("ErrorContext.hash", &hash_of(&ErrorContext::new(s.clone())), &hash_of(&ErrorContext::new(t.clone())), d);
    }
    let app = |k: &Key<i64>| match k.0 {
        0 => AppError::new(e(k.2[0])),
        _ => AppError::with_context(e(k.2[0]), k.1.iter().map(|x| e(*x)).collect::<Vec<_>>()),
    };
    cx.eq("AppError.eq", &(app(&a) == app(&b)), &(a.0 == b.0 && a.2 == b.2 && (a.0 == 0 || a.1 == b.1)), d);
    let io = |k: &Key<i64>| if k.0 == 0 { IOError::ValueNotSet } else { IOError::Other(k.2[0].to_string()) };
    let me = |k: &Key<i64>| if k.0 == 0 { MaybeError::ValueNotPresent } else { MaybeError::Custom(k.2[0].to_string()) };
    let pe = |k: &Key<i64>| if k.0 == 0 { PVecError::IndexOutOfBounds { index: k.1.len(), len: k.2[0] as usize } } else { PVecError::InvalidRange { start: k.1.len(), end: k.2[0] as usize } };
    let w = a.0 == b.0 && (a.0 == 0 || same);
    cx.eq("small_errors.eq", &(io(&a) == io(&b), me(&a) == me(&b)), &(w, w), d);
    cx.eq("PVecError.eq", &(pe(&a) == pe(&b)), &(a.0 == b.0 && a.1.len() == b.1.len() && a.2 == b.2), d);
}
/// contents that are not equal to themselves, or not comparable
fn floats(cx: &mut Ctx, r: &mut Rng) {
    let vals = [0.0, -0.0, 1.0, f64::NAN, f64::INFINITY];
    let n = *r.pick(&[1usize, 1, 2, 8, 9]);
    let xs: Vec<f64> = (0..n).map(|_| *r.pick(&vals)).collect();
    let mut ys = xs.clone();
    if r.chance(1, 2) {
        let i = r.below(n);
        ys[i] = *r.pick(&vals);
    }
    let c = || format!("{xs:?} {ys:?}");
    cx.case("floats", &(xs.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), ys.iter().map(|x| x.to_bits()).collect::<Vec<_>>()), true, c);
    let (x, y) = (xs[0], ys[0]);
    macro_rules! one {
        ($n:expr, $mk:expr) => {{
            let mk = $mk;
            cx.eq(concat!($n, ".float_eq"), &(mk(x) == mk(y)), &(x == y), c);
            cx.eq(concat!($n, ".float_partial_cmp"), &mk(x).partial_cmp(&mk(y)), &x.partial_cmp(&y), c);
        }};
    }
    one!("Id", Id::new);
    one!("Sum", Sum);
    one!("Product", Product);
    one!("Max", Max);
    one!("Min", Min);
    one!("First", |x| First(Some(x)));
    one!("Last", |x| Last(Some(x)));
    one!("Maybe", Maybe::Just);
    one!("Either.right", Either::<f64, f64>::Right);
    one!("Either.left", Either::<f64, f64>::Left);
    one!("Validated", Validated::<f64, f64>::Valid);
    one!("Writer", |x| Writer::<Vec<i64>, f64>::new(vec![1], x));
    let (a, b): (Choice<f64>, Choice<f64>) = (xs.iter().copied().collect(), ys.iter().copied().collect());
    cx.eq("Choice.float_eq", &(a == b), &(xs == ys), c);
    cx.eq("Choice.float_partial_cmp", &a.partial_cmp(&b), &xs.partial_cmp(&ys), c);
    let (a, b) = (Validated::<f64, f64>::invalid_vec(xs.clone()), Validated::<f64, f64>::invalid_vec(ys.clone()));
    cx.eq("Validated.float_eq", &(a == b), &(xs == ys), c);
    cx.eq("Validated.float_partial_cmp", &a.partial_cmp(&b), &xs.partial_cmp(&ys), c);
}

fn main() {
    main_with("C33", |cx| {
        cx.rule = "a pair of values of one type with known contents, counted once per distinct pair; non-trivial when the values are separately built".into();
        mon::shapes::rounds(cx);
        cx.assumptions = vec!["elements compare lawfully; between different alternatives of a type only the laws of a total order are asserted".into()];
        for (k, n) in [("cases.Choice", 2_000), ("cases.Validated", 2_000), ("cases.Writer", 500), ("equal_pairs", 20_000), ("cases.floats", 1_000), ("cases.errors", 1_000)] {
            cx.require(k, n);
        }
        let n = cx.n(1_500, 150_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                for (s, f) in [("pools", pools as fn(&mut Ctx, &mut Rng)), ("floats", floats), ("floats", floats)] {
                    let seed = r.u64();
                    if let Err(p) = quiet(|| f(cx, &mut Rng::new(seed))) {
                        cx.violation(format!("{s}.panic"), format!("seed {seed}: {} at {}", p.msg, p.loc));
                    }
                }
            }
        });
    });
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let c = || format!("{n} elements, differing in one place");
    cx.case("wide", &(n, few), true, c);
    let xs: Vec<i64> = (0..n as i64).map(|i| i % 11).collect();
    let mut ys = xs.clone();
    let at = if r.chance(1, 2) { n - 1 } else { r.below(n) };
    ys[at] += 1;
    macro_rules! wide {
        ($ty:expr, $mk:expr) => {{
            let (a, b, same) = ($mk(&xs), $mk(&ys), $mk(&xs));
            cx.eq(concat!("wide.", $ty, ".eq"), &(a == b, a == same, a.cmp(&b), b.cmp(&a), a.cmp(&same), a.partial_cmp(&b), a.clone() == a), &(false, true, Ordering::Less, Ordering::Greater, Ordering::Equal, Some(Ordering::Less), true), c);
            cx.eq(concat!("wide.", $ty, ".hash"), &hash_of(&a), &hash_of(&same), c);
            let long: Vec<i64> = xs.iter().copied().chain([0]).collect();
            let l = $mk(&long);
            cx.eq(concat!("wide.", $ty, ".longer"), &(a == l, a.cmp(&l).reverse() == l.cmp(&a), a.cmp(&l) == Ordering::Equal), &(false, true, false), c);
        }};
    }
    wide!("choice", |v: &Vec<i64>| v.iter().copied().collect::<Choice<i64>>());
    wide!("validated", |v: &Vec<i64>| Validated::<i64, i64>::invalid_vec(v.clone()));
    wide!("writer", |v: &Vec<i64>| Writer::new(v.clone(), 1i64));
    wide!("id", |v: &Vec<i64>| Id::new(v.clone()));
    wide!("either", |v: &Vec<i64>| Either::<Vec<i64>, i64>::Left(v.clone()));
    wide!("maybe", |v: &Vec<i64>| Maybe::Just(v.clone()));
}
