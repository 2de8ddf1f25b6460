//! The same operations on elements of other sizes, alignments and ownership, with user functions that
//! call the library again, and again after a user function panicked. Generic code cannot tell these
//! apart, so the results, read as numbers, must be those obtained with plain integers.
use crate::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::lens::Lens;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::prism::Prism;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::State;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::memoizer::Memoizer;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::{Semigroup, SemigroupExt};
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub trait El: Clone + Ord + Hash + std::fmt::Debug + Send + Sync + 'static {
    fn mk(v: i64) -> Self;
    fn val(&self) -> i64;
}
impl El for i64 {
    fn mk(v: i64) -> i64 {
        v
    }
    fn val(&self) -> i64 {
        *self
    }
}
/// 320 bytes, the value in the last of them
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Big([i64; 40]);
impl El for Big {
    fn mk(v: i64) -> Big {
        let mut b = [v ^ 0x55; 40];
        b[0] = v;
        b[39] = v;
        Big(b)
    }
    fn val(&self) -> i64 {
        if self.0[1..39].iter().all(|x| *x == self.0[0] ^ 0x55) { self.0[39] } else { i64::MIN + 7 }
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(128))]
pub struct Al(i64);
impl El for Al {
    fn mk(v: i64) -> Al {
        Al(v)
    }
    fn val(&self) -> i64 {
        if (self as *const Al as usize) % 128 == 0 { self.0 } else { i64::MIN + 9 }
    }
}
impl El for Box<i64> {
    fn mk(v: i64) -> Self {
        Box::new(v)
    }
    fn val(&self) -> i64 {
        **self
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Byte(i8);
impl El for Byte {
    fn mk(v: i64) -> Byte {
        Byte(v as i8)
    }
    fn val(&self) -> i64 {
        self.0 as i64
    }
}
/// what `Byte` can hold, in a wider type
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Wide8(i64);
impl El for Wide8 {
    fn mk(v: i64) -> Wide8 {
        Wide8(v as i8 as i64)
    }
    fn val(&self) -> i64 {
        self.0
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Zst;
impl El for Zst {
    fn mk(_: i64) -> Zst {
        Zst
    }
    fn val(&self) -> i64 {
        0
    }
}
/// what `Zst` can hold, with a size
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Zero(i64);
impl El for Zero {
    fn mk(_: i64) -> Zero {
        Zero(0)
    }
    fn val(&self) -> i64 {
        self.0
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    Nest,
    PanicAt(u64),
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Plain) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<usize> = const { Cell::new(0) };
    static INNER: Cell<u64> = const { Cell::new(0) };
}
/// every user function passes here
fn user() {
    CALLS.with(|c| c.set(c.get() + 1));
    match MODE.with(|m| m.get()) {
        Mode::Plain => {},
        Mode::PanicAt(n) => {
            if CALLS.with(|c| c.get()) == n {
                inject(78);
            }
        },
        Mode::Nest => {
            let calls = CALLS.with(|c| c.get());
            if calls <= 24 {
                MODE.with(|m| m.set(Mode::Plain));
                let i = NEXT.with(|n| {
                    n.set(n.get() + 1);
                    n.get()
                });
                let ops = ops::<Wide8>();
                let x = In { a: vec![5, 3, 5], b: vec![2, 9], c: vec![4], k: i };
                std::hint::black_box((ops[i % ops.len()].2)(&x));
                INNER.with(|n| n.set(n.get() + 1));
                MODE.with(|m| m.set(Mode::Nest));
                CALLS.with(|c| c.set(calls));
            }
        },
    }
}
#[derive(Clone, Debug, Hash)]
pub struct In {
    a: Vec<i64>,
    b: Vec<i64>,
    c: Vec<i64>,
    k: usize,
}
type Out = Vec<i64>;
type Op = (&'static [&'static str], &'static str, fn(&In) -> Out);

fn f<T: El>(x: &T) -> T {
    user();
    T::mk(x.val().wrapping_mul(3).wrapping_add(1))
}
fn fo<T: El>(x: T) -> T {
    f(&x)
}
fn h<T: El>(x: &T) -> T {
    user();
    T::mk(x.val().wrapping_sub(7))
}
fn g<T: El>(x: &T, y: &T) -> T {
    user();
    T::mk(x.val().wrapping_mul(5).wrapping_sub(y.val()))
}
fn g3<T: El>(x: &T, y: &T, z: &T) -> T {
    user();
    T::mk(x.val().wrapping_mul(5).wrapping_sub(y.val()).wrapping_mul(3).wrapping_add(z.val()))
}
fn p<T: El>(x: &T) -> bool {
    user();
    x.val() % 2 == 0
}
fn ts<T: El>(v: &[i64]) -> Vec<T> {
    v.iter().map(|x| T::mk(*x)).collect()
}
fn vs<'a, T: El>(xs: impl IntoIterator<Item = &'a T>) -> Out {
    let mut o: Out = xs.into_iter().map(|x| x.val()).collect();
    o.insert(0, o.len() as i64);
    o
}
fn cho<T: El>(v: &[i64]) -> Choice<T> {
    ts::<T>(v).into_iter().collect()
}
fn vc<T: El>(c: &Choice<T>) -> Out {
    let mut o = vs(c.iter());
    o.extend(vs(c.iter_alternatives()));
    o.push(c.len() as i64);
    o.push(c.first().map_or(-1, |x| x.val()));
    o
}
fn pv<T: El>(v: &[i64]) -> PersistentVector<T> {
    ts::<T>(v).into_iter().collect()
}
fn vp<T: El>(v: &PersistentVector<T>) -> Out {
    let mut o = vs(v.iter());
    o.push(v.len() as i64);
    o.extend(vs(&v.to_vec()));
    o
}
fn val<T: El>(x: &In, v: &[i64]) -> Validated<T, T> {
    if v.is_empty() { Validated::valid(T::mk(x.k as i64)) } else { Validated::invalid_many(ts::<T>(v)) }
}
fn vv<T: El>(v: &Validated<T, T>) -> Out {
    match v {
        Validated::Valid(x) => vec![1, x.val()],
        Validated::Invalid(e) => {
            let mut o = vs(e.iter());
            o.insert(0, 0);
            o
        },
    }
}
fn opt<T: El>(v: &[i64]) -> Option<T> {
    v.first().map(|x| T::mk(*x))
}
fn vo<T: El>(v: Option<T>) -> Out {
    vs(v.iter())
}
fn may<T: El>(v: &[i64]) -> Maybe<T> {
    Maybe::from_option(opt(v))
}
fn res<T: El>(v: &[i64]) -> Result<T, T> {
    match v {
        [x] | [_, x, ..] => Ok(T::mk(*x)),
        _ => Err(T::mk(-1)),
    }
}
fn vr<T: El>(v: Result<T, T>) -> Out {
    match v {
        Ok(x) => vec![1, x.val()],
        Err(x) => vec![0, x.val()],
    }
}
fn ei<T: El>(v: &[i64]) -> Either<T, T> {
    Either::from_result(res(v))
}
fn ve<T: El>(v: Either<T, T>) -> Out {
    vr(v.to_result())
}
fn wr<T: El>(v: &[i64], k: usize) -> Writer<Vec<T>, T> {
    Writer::new(ts(v), T::mk(k as i64))
}
fn vw<T: El>(w: Writer<Vec<T>, T>) -> Out {
    let (l, x) = w.run();
    let mut o = vs(&l);
    o.push(x.val());
    o
}
fn hash<X: Hash>(x: &X) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn cat(parts: Vec<Out>) -> Out {
    parts.into_iter().flat_map(|p| p.into_iter().chain([i64::MAX])).collect()
}
fn fns<T: El>() -> Vec<fn(&T) -> T> {
    vec![f::<T>, h::<T>]
}
fn fnso<T: El>() -> Vec<fn(T) -> T> {
    vec![fo::<T>, |x| h(&x)]
}

/// (properties, name, operation)
#[allow(deprecated)]
pub fn ops<T: El>() -> Vec<Op> {
    let all: Vec<Op> = vec![
        // one container, one function
        (&["C05", "C08"], "vec.fmap", |x| cat(vec![vs(&ts::<T>(&x.a).fmap(f)), vs(&ts::<T>(&x.a).fmap_owned(fo))])),
        (&["C05", "C08", "C14"], "choice.fmap", |x| cat(vec![vc(&cho::<T>(&x.a).fmap(f)), vc(&cho::<T>(&x.a).fmap_owned(fo))])),
        (&["C05", "C01"], "pvec.fmap", |x| cat(vec![vp(&pv::<T>(&x.a).fmap(f)), vp(&pv::<T>(&x.a).fmap_owned(fo)), vp(&pv::<T>(&x.a).map(f))])),
        (&["C05", "C08"], "validated.fmap", |x| {
            let v = val::<T>(x, &x.a);
            cat(vec![vv(&v.fmap(f)), vv(&v.clone().fmap_owned(fo)), vv(&v.fmap_invalid(f)), vv(&v.fmap_invalid_owned(fo))])
        }),
        (&["C05", "C08"], "small.fmap", |x| {
            cat(vec![
                vo(opt::<T>(&x.a).fmap(f)),
                vo(may::<T>(&x.a).fmap(f).to_option()),
                vo(may::<T>(&x.a).fmap_owned(fo).to_option()),
                vr(res::<T>(&x.a).fmap(f)),
                ve(ei::<T>(&x.a).fmap(f)),
                ve(ei::<T>(&x.a).fmap_owned(fo)),
                vec![Id::new(T::mk(x.k as i64)).fmap(f).value().val()],
                vec![Min(T::mk(x.k as i64)).fmap(f).0.val(), Max(T::mk(x.k as i64)).fmap_owned(fo).0.val()],
                vo(First(opt::<T>(&x.a)).fmap(f).0),
                vo(Last(opt::<T>(&x.b)).fmap_owned(fo).0),
            ])
        }),
        (&["C05", "C19"], "writer.fmap", |x| cat(vec![vw(wr::<T>(&x.a, x.k).fmap(f)), vw(wr::<T>(&x.a, x.k).fmap_owned(fo))])),
        // applicative
        (&["C06", "C08"], "vec.apply", |x| cat(vec![vs(&fns::<T>().apply(&ts::<T>(&x.a))), vs(&fnso::<T>().apply_owned(ts::<T>(&x.a)))])),
        (&["C06", "C08"], "vec.lift", |x| {
            let (a, b, c) = (ts::<T>(&x.a), ts::<T>(&x.b), ts::<T>(&x.c));
            cat(vec![
                vs(&Vec::<T>::lift2(g, &a, &b)),
                vs(&Vec::<T>::lift2_owned(|a, b| g(&a, &b), a.clone(), b.clone())),
                vs(&Vec::<T>::lift3(g3, &a, &b, &c)),
                vs(&Vec::<T>::lift3_owned(|a, b, c| g3(&a, &b, &c), a.clone(), b.clone(), c.clone())),
                vs(&Vec::<T>::sequence_left(&a, &b)),
                vs(&Vec::<T>::sequence_right(&a, &b)),
            ])
        }),
        (&["C06", "C08", "C14"], "choice.apply", |x| {
            let fs: Choice<fn(&T) -> T> = fns::<T>().into_iter().collect();
            let fo: Choice<fn(T) -> T> = fnso::<T>().into_iter().collect();
            cat(vec![vc(&fs.apply(&cho::<T>(&x.a))), vc(&fo.apply_owned(cho::<T>(&x.a)))])
        }),
        (&["C06", "C08", "C14"], "choice.lift", |x| {
            let (a, b, c) = (cho::<T>(&x.a), cho::<T>(&x.b), cho::<T>(&x.c));
            cat(vec![
                vc(&Choice::<T>::lift2(g, &a, &b)),
                vc(&Choice::<T>::lift2_owned(|a, b| g(&a, &b), a.clone(), b.clone())),
                vc(&Choice::<T>::lift3(g3, &a, &b, &c)),
                vc(&Choice::<T>::lift3_owned(|a, b, c| g3(&a, &b, &c), a, b, c)),
            ])
        }),
        (&["C06", "C08", "C13"], "validated.lift", |x| {
            let (a, b, c) = (val::<T>(x, &x.a), val::<T>(x, &x.b), val::<T>(x, &x.c));
            type V<T> = Validated<T, T>;
            cat(vec![
                vv(&V::<T>::lift2(g, &a, &b)),
                vv(&V::<T>::lift2_owned(|a, b| g(&a, &b), a.clone(), b.clone())),
                vv(&V::<T>::lift3(g3, &a, &b, &c)),
                vv(&V::<T>::lift3_owned(|a, b, c| g3(&a, &b, &c), a.clone(), b.clone(), c.clone())),
                vv(&a.fmap(|_| f as fn(&T) -> T).apply(&b)),
                vv(&a.fmap(|_| fo as fn(T) -> T).apply_owned(b.clone())),
                // two valid values have no errors to combine: documented as a panic
                if a.is_valid() && b.is_valid() { vec![] } else { vv(&a.combine_errors(&b)) },
                if a.is_valid() && b.is_valid() { vec![] } else { vv(&a.clone().combine_errors_owned(b.clone())) },
            ])
        }),
        (&["C06", "C08"], "small.lift", |x| {
            type E<T> = Either<T, T>;
            type R<T> = Result<T, T>;
            let (o1, o2, o3) = (opt::<T>(&x.a), opt::<T>(&x.b), opt::<T>(&x.c));
            let (r1, r2, r3) = (res::<T>(&x.a), res::<T>(&x.b), res::<T>(&x.c));
            cat(vec![
                vo(Option::<T>::lift2(g, &o1, &o2)),
                vo(Option::<T>::lift3(g3, &o1, &o2, &o3)),
                vo(Maybe::<T>::lift2(g, &may::<T>(&x.a), &may::<T>(&x.b)).to_option()),
                vo(Maybe::<T>::lift3_owned(|a, b, c| g3(&a, &b, &c), may::<T>(&x.a), may::<T>(&x.b), may::<T>(&x.c)).to_option()),
                vr(R::<T>::lift2(g, &r1, &r2)),
                vr(R::<T>::lift3_owned(|a, b, c| g3(&a, &b, &c), r1, r2, r3)),
                ve(E::<T>::lift2(g, &ei(&x.a), &ei(&x.b))),
                ve(E::<T>::lift3_owned(|a, b, c| g3(&a, &b, &c), ei(&x.a), ei(&x.b), ei(&x.c))),
                vw(Writer::<Vec<T>, T>::lift3(g3, &wr(&x.a, x.k), &wr(&x.b, 3), &wr(&x.c, 5))),
                vw(Writer::<Vec<T>, T>::lift2_owned(|a, b| g(&a, &b), wr(&x.a, x.k), wr(&x.b, 3))),
            ])
        }),
        // monads
        (&["C07", "C08", "C14"], "choice.bind", |x| {
            let c = cho::<T>(&x.a);
            let twice = |t: &T| cho::<T>(&[f(t).val(), h(t).val()][..(t.val().rem_euclid(3) as usize).min(2)]);
            let o = cat(vec![vc(&c.bind(twice)), vc(&c.clone().bind_owned(|t| twice(&t)))]);
            let n: Choice<Choice<T>> = [cho::<T>(&x.a), cho::<T>(&x.b), cho::<T>(&x.c)].into_iter().collect();
            cat(vec![o, vc(&n.join::<T>()), vc(&n.join_owned::<T>())])
        }),
        (&["C07", "C08", "C19"], "writer.bind", |x| {
            let c = x.c.clone();
            let k = |t: &T| Writer::new(ts::<T>(&c), f(t));
            cat(vec![
                vw(wr::<T>(&x.a, x.k).bind(k)),
                vw(wr::<T>(&x.a, x.k).bind_owned(|t| k(&t))),
                vw(Writer::new(ts::<T>(&x.a), wr::<T>(&x.b, x.k)).join()),
                vw(Writer::new(ts::<T>(&x.a), wr::<T>(&x.b, x.k)).join_owned()),
            ])
        }),
        (&["C07", "C08"], "small.bind", |x| {
            let b = &x.b;
            cat(vec![
                vv(&val::<T>(x, &x.a).bind(|t| val::<T>(x, b).fmap(|u| g(t, u)))),
                vv(&val::<T>(x, &x.a).bind_owned(|t| val::<T>(x, b).fmap(|u| g(&t, u)))),
                vo(opt::<T>(&x.a).bind(|t| opt::<T>(b).map(|u| g(t, &u)))),
                vo(may::<T>(&x.a).bind_owned(|t| may::<T>(b).fmap(|u| g(&t, u))).to_option()),
                vr(res::<T>(&x.a).bind(|t| res::<T>(b).map(|u| g(t, &u)))),
                ve(ei::<T>(&x.a).bind(|t| ei::<T>(b).fmap(|u| g(t, u)))),
                ve(ei::<T>(&x.a).bind_owned(|t| ei::<T>(b).fmap(|u| g(&t, u)))),
                vec![Id::new(T::mk(x.k as i64)).bind(|t| Id::new(f(t))).value().val()],
            ])
        }),
        // combination and choice
        (&["C09", "C08"], "combine", |x| {
            let (a, b, c) = (ts::<T>(&x.a), ts::<T>(&x.b), ts::<T>(&x.c));
            let n = x.k % 5;
            let mut map = std::collections::HashSet::new();
            map.extend(ts::<T>(&x.a));
            let set = map.clone().combine_owned(ts::<T>(&x.b).into_iter().collect());
            let mut set: Vec<T> = set.into_iter().collect();
            set.sort();
            let (tm, tn) = (x.k as i64, x.a.len() as i64);
            cat(vec![
                vs(&a.combine(&b)),
                vs(&a.clone().combine_owned(b.clone())),
                vs(&Semigroup::combine(&cho::<T>(&x.a), &cho::<T>(&x.b)).into_iter().collect::<Vec<_>>()),
                vp(&pv::<T>(&x.a).combine(&pv(&x.b))),
                vs(&a.combine_n(&n)),
                vs(&a.clone().combine_all([b.clone(), c.clone(), b.clone()])),
                vs(&rustica::traits::monoid::combine_all([a.clone(), b.clone(), c.clone()])),
                vs(&rustica::traits::monoid::repeat(a.clone(), n)),
                vs(&rustica::traits::monoid::mconcat(&[a.clone(), b.clone(), Vec::empty(), c])),
                vs(&set),
                vec![Min(T::mk(tm)).combine(&Min(T::mk(tn))).0.val(), Max(T::mk(tm)).combine_owned(Max(T::mk(tn))).0.val()],
                vo(First(opt::<T>(&x.a)).combine(&First(opt(&x.b))).0),
                vo(Last(opt::<T>(&x.a)).combine_owned(Last(opt(&x.b))).0),
                vs(&a.clone().combine_owned(a)),
            ])
        }),
        (&["C11", "C08"], "alt", |x| {
            cat(vec![
                vs(&ts::<T>(&x.a).alt(&ts(&x.b))),
                vc(&cho::<T>(&x.a).mplus(&cho(&x.b))),
                vc(&cho::<T>(&x.a).mplus_owned(cho(&x.b))),
                vc(&cho::<T>(&x.a).alt(&cho(&x.b))),
                vo(opt::<T>(&x.a).mplus(&opt(&x.b))),
                vo(res::<T>(&x.a).map_err(|_| ()).mplus(&res(&x.b).map_err(|_| ())).ok()),
                vo(ei::<T>(&x.a).fmap_left(|_| ()).mplus_owned(ei::<T>(&x.b).fmap_left(|_| ())).right_option()),
                vo(may::<T>(&x.a).alt(&may(&x.b)).to_option()),
                vv(&val::<T>(x, &x.a).mplus(&val(x, &x.b))),
                vv(&val::<T>(x, &x.a).mplus_owned(val(x, &x.b))),
            ])
        }),
        (&["C10"], "fold", |x| {
            macro_rules! folds {
                ($c:expr) => {{
                    let c = $c;
                    let push = |acc: &Vec<i64>, t: &T| {
                        user();
                        let mut a = acc.clone();
                        a.push(t.val());
                        a
                    };
                    let m: Vec<T> = c.fold_map(|t| vec![f(t)]);
                    cat(vec![c.fold_left(&vec![], push), c.fold_right(&vec![], |t, acc| push(acc, t)), vs(&m), vec![Foldable::length(&c) as i64]])
                }};
            }
            cat(vec![folds!(ts::<T>(&x.a)), folds!(cho::<T>(&x.a)), folds!(pv::<T>(&x.a)), folds!(opt::<T>(&x.a)), folds!(res::<T>(&x.a)), folds!(val::<T>(x, &x.a)), folds!(Id::new(T::mk(2)))])
        }),
        // collections of results
        (&["C12"], "sequence", |x| {
            use rustica::utils::{categorical_utils::*, error_utils, hkt_utils};
            let rs = || -> Vec<Result<T, T>> { x.a.iter().map(|v| if *v % 7 == 6 { Err(T::mk(*v)) } else { Ok(T::mk(*v)) }).collect() };
            let step = |t: T| -> Result<T, T> { if t.val() % 7 == 6 { Err(h(&t)) } else { Ok(f(&t)) } };
            let out = |r: Result<Vec<T>, T>| match r {
                Ok(v) => vs(&v),
                Err(e) => vec![-1, e.val()],
            };
            cat(vec![
                out(error_utils::sequence(rs())),
                out(sequence_results(rs())),
                sequence_options(rs().into_iter().map(|r| r.ok()).collect()).map_or(vec![-2], |v| vs(&v)),
                out(error_utils::traverse(ts::<T>(&x.a), step)),
                match error_utils::traverse_validated(ts::<T>(&x.a), step) {
                    Validated::Valid(v) => vs(&v),
                    Validated::Invalid(e) => {
                        let mut o = vs(e.iter());
                        o.insert(0, -3);
                        o
                    },
                },
                vs(&hkt_utils::filter_map(ts::<T>(&x.a), p, fo)),
                vs(&hkt_utils::zip_with(ts::<T>(&x.a), ts::<T>(&x.b), |a, b| g(&a, &b))),
                vs(&hkt_utils::fan_out(T::mk(3), fnso::<T>())),
                vs(&filter_map_collect(ts::<T>(&x.a), |t| if p(&t) { Some(f(&t)) } else { None })),
                cho::<Wide8>(&[]).first().map_or(vec![], |_| vec![1]),
            ])
        }),
        (&["C13"], "validated.many", |x| {
            let parts: Vec<Validated<T, T>> = [&x.a, &x.b, &x.c].iter().map(|v| val::<T>(x, v)).collect();
            let all = |v: Validated<T, Vec<T>>| match v {
                Validated::Valid(v) => vs(&v),
                Validated::Invalid(e) => {
                    let mut o = vs(e.iter());
                    o.insert(0, -3);
                    o
                },
            };
            let sum = |v: &[T]| -> T {
                user();
                T::mk(v.iter().fold(1i64, |n, t| n.wrapping_mul(3).wrapping_add(t.val())))
            };
            let mut seen = vec![];
            let rec = parts[0].clone().recover_all(|e| {
                user();
                seen.push(e.val());
                if e.val() % 5 == 0 { Validated::valid(f(&e)) } else { Validated::invalid(e) }
            });
            cat(vec![
                all(Validated::collect::<_, Vec<T>>(parts.clone().into_iter())),
                vv(&Validated::sequence(&parts.iter().collect::<Vec<_>>(), &|v: &[T]| sum(v))),
                vv(&Validated::sequence_owned(parts.clone(), |v: Vec<T>| sum(&v))),
                vv(&rec),
                seen,
                vs(&rustica::error::collect_errors(ts::<T>(&x.a)).errors()),
                vs(parts[0].iter_errors()),
                vs(parts[1].error_slice()),
            ])
        }),
        (&["C14"], "choice.ops", |x| {
            let c = cho::<T>(&x.a);
            let i = x.k % (x.a.len() + 1);
            let r = |r: Result<Choice<T>, &'static str>| r.map_or_else(|_| vec![-5], |c| vc(&c));
            let nested: Choice<Vec<T>> = [ts::<T>(&x.a), ts::<T>(&x.b), ts::<T>(&x.c)].into_iter().collect();
            cat(vec![
                vc(&c.filter(p)),
                vc(&c.filter_values(p)),
                vc(&c.dedup()),
                vc(&c.dedup_by_key(|t| {
                    user();
                    t.val() % 3
                })),
                vc(&c.fmap_alternatives(f)),
                vc(&c.clone().add_alternatives(ts::<T>(&x.b))),
                r(c.clone().try_remove_alternative(i)),
                r(c.clone().try_swap_with_alternative(i)),
                r(nested.try_flatten()),
                vs(&c.bind_lazy(|t| [f(t), h(t)].into_iter().collect::<Choice<T>>()).collect::<Vec<T>>()),
                vs(&c.to_vec()),
                vs(&c.clone().into_iter().collect::<Vec<_>>()),
                vc(&Choice::new(T::mk(4), ts::<T>(&x.b))),
                vc(&Choice::of_many(ts::<T>(&x.c))),
                vec![c.fold(1, |n: i64, t| n.wrapping_mul(3).wrapping_add(f(t).val()))],
            ])
        }),
        (&["C15"], "convert", |x| {
            use rustica::error::*;
            use rustica::utils::error_utils::ResultExt;
            let r = || res::<T>(&x.a);
            cat(vec![
                ve(result_to_either(r())),
                vr(either_to_result(ei::<T>(&x.a))),
                vv(&result_to_validated(r())),
                vr(validated_to_result(val::<T>(x, &x.b))),
                vv(&either_to_validated(ei::<T>(&x.a))),
                ve(validated_to_either(val::<T>(x, &x.b))),
                vv(&r().to_validated()),
                ve(r().to_either()),
                vv(&Validated::from_result(&r())),
                vv(&Validated::from_option_owned(opt::<T>(&x.a), T::mk(8))),
                vr(val::<T>(x, &x.b).to_result()),
                vo(val::<T>(x, &x.b).to_option()),
                vo(Option::<T>::from(Maybe::from_option(opt::<T>(&x.a)))),
                vr(may::<T>(&x.a).to_result(T::mk(3))),
                vr(flatten_composable_result(wrap_in_composable_result(r()))),
                split_validated_errors(val::<T>(x, &x.b)).into_iter().flat_map(vr).collect(),
                vs(&Vec::<T>::from(cho::<T>(&x.a))),
                vc(&Choice::from(ts::<T>(&x.a))),
            ])
        }),
        // persistent vectors
        (&["C01"], "pvec.ops", |x| {
            let long: Vec<i64> = (0..20 + (x.k as i64 % 3) * 60).chain(x.a.iter().copied()).collect();
            let (a, b) = (pv::<T>(&long), pv::<T>(&x.b));
            let i = x.k * 13 % (long.len() + 1);
            let (l, r) = a.split_at(i);
            let (yes, no) = a.partition(p);
            let out = cat(vec![
                vp(&a.push_back(T::mk(1))),
                vp(&a.push_front(T::mk(1))),
                vp(&a.concat(&b)),
                vp(&b.concat(&a)),
                vp(&a.insert(i, T::mk(2))),
                a.remove(i).map_or(vec![-1], |v| vp(&v)),
                a.try_update(i, T::mk(3)).map_or(vec![-1], |v| vp(&v)),
                a.pop_back().map_or(vec![-1], |(v, t)| cat(vec![vp(&v), vec![t.val()]])),
                a.pop_front().map_or(vec![-1], |(v, t)| cat(vec![vp(&v), vec![t.val()]])),
                vp(&l),
                vp(&r),
                vp(&a.take(i)),
                vp(&a.skip(i)),
                vp(&yes),
                vp(&no),
                vp(&a.filter(p)),
                vp(&a.filter_map(|t| if p(t) { Some(f(t)) } else { None })),
                vp(&a.flat_map(|t| [f(t), h(t)])),
                vp(&a.dedup()),
                vp(&a.sorted()),
                a.zip(&b).iter().map(|(s, t)| s.val().wrapping_mul(1000).wrapping_add(t.val())).collect(),
                a.chunk(1 + x.k % 9).iter().flat_map(|c| vp(c)).collect(),
                a.get(i).map_or(vec![-1], |t| vec![t.val()]),
                vs(&a.clone().into_iter().collect::<Vec<_>>()),
                vec![a.fold(1, |n: i64, t| n.wrapping_mul(3).wrapping_add(f(t).val()))],
            ]);
            // and the vectors the others came from are as they were
            cat(vec![out, vp(&a), vp(&b)])
        }),
        (&["C03", "C33"], "compare", |x| {
            let (a, b) = (&x.a, &x.b);
            let ord = |o: std::cmp::Ordering| o as i64;
            let built = b.iter().fold(PersistentVector::<T>::new(), |v, t| v.push_back(T::mk(*t)));
            vec![
                (pv::<T>(a) == pv::<T>(b)) as i64,
                ord(pv::<T>(a).cmp(&pv::<T>(b))),
                (pv::<T>(b) == built) as i64,
                (hash(&pv::<T>(b)) == hash(&built)) as i64,
                (cho::<T>(a) == cho::<T>(b)) as i64,
                ord(cho::<T>(a).cmp(&cho::<T>(b))),
                (hash(&cho::<T>(a)) == hash(&cho::<T>(a))) as i64,
                (val::<T>(x, a) == val::<T>(x, b)) as i64,
                (ei::<T>(a) == ei::<T>(b)) as i64,
                (may::<T>(a) == may::<T>(b)) as i64,
                ord(may::<T>(a).cmp(&may::<T>(b))),
                (wr::<T>(a, 1) == wr::<T>(b, 1)) as i64,
            ]
        }),
        (&["C31"], "contents", |x| {
            cat(vec![
                vc(&cho::<T>(&x.a)),
                vp(&pv::<T>(&x.a)),
                vp(&PersistentVector::from_slice(&ts::<T>(&x.a))),
                vv(&val::<T>(x, &x.a)),
                vs(&Into::<Vec<T>>::into(pv::<T>(&x.a))),
                vs(&may::<T>(&x.a).to_vec()),
                vs(&ei::<T>(&x.a).into_iter().collect::<Vec<_>>()),
                vs(&ei::<T>(&x.a).left_iter().collect::<Vec<_>>()),
                vec![Id::new(T::mk(5)).into_value().val(), wr::<T>(&x.a, 4).into_value().val()],
                vo(cho::<T>(&x.a).try_into_value()),
                vw(wr::<T>(&x.b, 7)),
            ])
        }),
        (&["C29"], "bimap", |x| {
            cat(vec![
                ve(ei::<T>(&x.a).bimap(f, h)),
                vr(rustica::utils::categorical_utils::bimap_result(res::<T>(&x.a), fo, |t: T| h(&t))),
                vv(&val::<T>(x, &x.a).bimap(f, h)),
                ve(Bifunctor::first(&ei::<T>(&x.a), f)),
                vv(&Bifunctor::second(&val::<T>(x, &x.a), h)),
            ])
        }),
        // computations
        (&["C17"], "state", |x| {
            let s: State<Vec<T>, T> = State::new(|mut s: Vec<T>| {
                s.push(T::mk(1));
                (T::mk(s.len() as i64), s)
            });
            let (b, k) = (x.b.clone(), x.k as i64);
            let t = s.clone().bind(move |v| {
                user();
                let b = b.clone();
                State::new(move |mut s: Vec<T>| {
                    s.extend(ts::<T>(&b));
                    (g(&v, &T::mk(k)), s)
                })
            });
            let (v, st) = t.fmap(fo).bind(move |v| s.clone().fmap(move |w| g(&v, &w))).run_state(ts(&x.a));
            cat(vec![vec![v.val()], vs(&st)])
        }),
        (&["C18"], "reader", |x| {
            let r: Reader<Vec<T>, T> = Reader::asks(|e: Vec<T>| e.first().cloned().unwrap_or(T::mk(-1)));
            let len: Reader<Vec<T>, T> = Reader::asks(|e: Vec<T>| T::mk(e.len() as i64));
            let m = r.combine(&len.local(|mut e: Vec<T>| {
                user();
                e.push(T::mk(0));
                e
            }), |a, b| g(&a, &b));
            let l2 = len.clone();
            let m = m.bind(move |v| {
                user();
                l2.fmap(move |w| g(&v, &w))
            });
            vec![m.run_reader(ts(&x.a)).val(), m.fmap(fo).run_reader(ts(&x.b)).val(), r.run_reader(ts(&x.c)).val()]
        }),
        (&["C20"], "cont", |x| {
            let a = x.a.clone();
            let c: Cont<Vec<i64>, T> = Cont::new(move |k: Arc<dyn Fn(T) -> Vec<i64> + Send + Sync>| a.iter().flat_map(|v| k(T::mk(*v))).collect());
            let b = x.b.clone();
            let d = c.clone().fmap(fo).bind(move |t| {
                user();
                let b = b.clone();
                Cont::new(move |k: Arc<dyn Fn(T) -> Vec<i64> + Send + Sync>| b.iter().flat_map(|v| k(g(&t, &T::mk(*v)))).collect())
            });
            cat(vec![
                d.run(|t: T| {
                    user();
                    vec![t.val()]
                }),
                c.apply(Cont::return_cont(Arc::new(|t: T| f(&t)) as Arc<dyn Fn(T) -> T + Send + Sync>)).run(|t: T| vec![t.val(), 0]),
            ])
        }),
        (&["C21"], "io", |x| {
            let k = x.k as i64;
            let io: IO<T> = IO::new(move || {
                user();
                T::mk(k)
            });
            let b = x.b.clone();
            let m = io.fmap(fo).bind(move |t| {
                user();
                let v = b.first().copied().unwrap_or(3);
                let t = t.clone();
                IO::new(move || g(&t, &T::mk(v)))
            });
            let (l, r) = IO::combine(&m, &io).run();
            cat(vec![
                vec![m.run().val(), l.val(), r.val(), m.clone().apply(IO::pure(fo as fn(T) -> T)).run().val()],
                vs(&IO::sequence(x.a.iter().map(|v| {
                    let v = *v;
                    IO::new(move || f(&T::mk(v)))
                })).run()),
            ])
        }),
        (&["C24"], "memo", |x| {
            let m: Memoizer<T, T> = Memoizer::new();
            let mut o = vec![];
            for v in x.a.iter().chain(&x.b).chain(&x.a) {
                let t = T::mk(*v);
                // what the user functions do to the memoizer's callers is C24's own business
                let fresh = f(&t);
                let mut asked = vec![];
                let got = m.get_or_compute(t, |t| {
                    asked.push(t.val());
                    fresh.clone()
                });
                o.push(got.val());
                o.append(&mut asked);
            }
            o
        }),
        (&["C25"], "optics", |x| {
            let l = Lens::new(|s: &(T, Vec<T>)| s.0.clone(), |s: (T, Vec<T>), a: T| (a, s.1));
            let s = (T::mk(x.k as i64), ts::<T>(&x.a));
            let view = |s: &(T, Vec<T>)| {
                let mut o = vs(&s.1);
                o.push(s.0.val());
                o
            };
            let q = Prism::new(|s: &Either<T, T>| s.clone().right_option(), |t: &T| Either::right(t.clone()));
            cat(vec![
                view(&l.modify(s.clone(), fo)),
                view(&l.set(s.clone(), T::mk(9))),
                view(&l.modify_always(s.clone(), fo)),
                vec![l.get(&s).val()],
                ve(q.modify(ei::<T>(&x.a), fo)),
                vo(q.preview(&ei::<T>(&x.b))),
                ve(q.review(&T::mk(4))),
            ])
        }),
        (&["C26"], "compose", |x| {
            use rustica::utils::categorical_utils::*;
            let c = compose(|t: T| h(&t), fo);
            let q = pipe(fo, |t: T| h(&t));
            let fl = flip(|a: T, b: T| g(&a, &b));
            x.a.iter().flat_map(|v| [c(T::mk(*v)).val(), q(T::mk(*v)).val(), fl(T::mk(*v), T::mk(2)).val()]).collect()
        }),
    ];
    all
}
fn same(cx: &mut Ctx, sig: &str, got: Result<Out, Panic>, want: &Out, x: &In) {
    match got {
        Ok(o) => cx.eq(sig, &o, want, || format!("{x:?}")),
        Err(p) => cx.check(sig, false, || format!("panicked: {p:?} instead of {want:?}; {x:?}")),
    }
}
/// runs this property's operations on one random input in every shape
pub fn check(cx: &mut Ctx, r: &mut Rng) {
    let id = cx.id.clone();
    let mine: Vec<usize> = (0..).zip(ops::<i64>()).filter(|(_, o)| o.0.contains(&id.as_str())).map(|(i, _)| i).collect();
    if mine.is_empty() {
        cx.harness_error(format!("no shape operations for {id}"));
        return;
    }
    let (plain, big, al, bx, byte, wide, zst, zero) = (ops::<i64>(), ops::<Big>(), ops::<Al>(), ops::<Box<i64>>(), ops::<Byte>(), ops::<Wide8>(), ops::<Zst>(), ops::<Zero>());
    for i in mine {
        let x = In { a: r.vec_small(11), b: r.vec_small(6), c: r.vec_small(4), k: r.below(40) };
        let nm = plain[i].1;
        let run = |op: &Op| quiet(|| (op.2)(&x));
        CALLS.with(|c| c.set(0));
        let Ok(want) = run(&plain[i]) else {
            cx.check(&format!("shapes.{nm}"), false, || format!("panics on {x:?}"));
            continue;
        };
        let calls = CALLS.with(|c| c.get());
        cx.case("shapes", &(nm, &x), true, || format!("{x:?}"));
        same(cx, &format!("shapes.{nm}.big"), run(&big[i]), &want, &x);
        same(cx, &format!("shapes.{nm}.aligned"), run(&al[i]), &want, &x);
        same(cx, &format!("shapes.{nm}.boxed"), run(&bx[i]), &want, &x);
        if let Ok(w) = run(&wide[i]) {
            same(cx, &format!("shapes.{nm}.byte"), run(&byte[i]), &w, &x);
        }
        if let Ok(w) = run(&zero[i]) {
            same(cx, &format!("shapes.{nm}.empty_type"), run(&zst[i]), &w, &x);
        }
        // the user functions call the library themselves
        CALLS.with(|c| c.set(0));
        let before = INNER.with(|n| n.get());
        NEXT.with(|n| n.set(r.below(1000)));
        MODE.with(|m| m.set(Mode::Nest));
        let got = run(&plain[i]);
        MODE.with(|m| m.set(Mode::Plain));
        cx.count("nested_calls", INNER.with(|n| n.get()) - before);
        same(cx, &format!("shapes.{nm}.reentered"), got, &want, &x);
        // a user function panics; afterwards everything is as before
        if calls > 0 {
            CALLS.with(|c| c.set(0));
            MODE.with(|m| m.set(Mode::PanicAt(1 + r.below(calls as usize) as u64)));
            let got = run(&big[i]);
            MODE.with(|m| m.set(Mode::Plain));
            if got.is_err() {
                cx.count("panicked_inside", 1);
            }
            same(cx, &format!("shapes.{nm}.after_panic"), run(&plain[i]), &want, &x);
            same(cx, &format!("shapes.{nm}.after_panic"), run(&big[i]), &want, &x);
        }
    }
}
/// `check`, many times on several threads
pub fn rounds(cx: &mut Ctx) {
    let n = cx.n(2_400, 240_000);
    cx.par(8, |cx, _| {
        for _ in 0..n / 8 {
            if !cx.within(0.12) {
                break;
            }
            let mut r = cx.rng.split();
            check(cx, &mut r);
        }
    });
}
