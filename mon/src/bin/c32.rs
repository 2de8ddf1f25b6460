//! C32: methods the traits provide, and code generic over the traits, driven through instances the library has never seen.
#![allow(deprecated)]
use mon::*;
use rustica::datatypes::id::Id;
use rustica::datatypes::writer::Writer;
use rustica::traits::applicative::Applicative;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::functor::{Functor, FunctorExt};
use rustica::traits::hkt::HKT;
use rustica::traits::identity::Identity;
use rustica::traits::iso::{Iso, IsoExt};
use rustica::traits::monad::Monad;
use rustica::traits::monoid::{self, Monoid, MonoidExt};
use rustica::traits::natural_transformation::{NaturalTransformation, identity_nat};
use rustica::traits::pure::{Pure, PureExt, PureType};
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt};
use rustica::traits::traversable::Traversable;
use rustica::transformers::{ContT, MonadTransformer, ReaderT};
use rustica::utils::transform_utils::{Pipeline, transform_all, transform_chain};
use std::cell::RefCell;
use std::rc::Rc;

/// several results, each with the ordered effects that led to it: a lawful monad in which order and multiplicity show
#[derive(Clone, Debug, PartialEq)]
struct Fx<T>(Vec<(Vec<i64>, T)>);
impl<T> HKT for Fx<T> {
    type Source = T;
    type Output<U> = Fx<U>;
}
impl<T> Pure for Fx<T> {
    fn pure<U: Clone>(v: &U) -> Fx<U> {
        Fx(vec![(vec![], v.clone())])
    }
}
fn cat(a: &[i64], b: &[i64]) -> Vec<i64> {
    [a, b].concat()
}
impl<T> Functor for Fx<T> {
    fn fmap<B: Clone, F: Fn(&T) -> B>(&self, f: F) -> Fx<B> {
        Fx(self.0.iter().map(|(l, x)| (l.clone(), f(x))).collect())
    }
    fn fmap_owned<B: Clone, F: Fn(T) -> B>(self, f: F) -> Fx<B> {
        Fx(self.0.into_iter().map(|(l, x)| (l, f(x))).collect())
    }
}
impl<T> FunctorExt for Fx<T> {
    fn filter_map<B, F: Fn(&T) -> Option<B>>(&self, f: F) -> Fx<B> {
        Fx(self.0.iter().filter_map(|(l, x)| f(x).map(|y| (l.clone(), y))).collect())
    }
}
fn pairs<A, B, C>(fa: &Fx<A>, fb: &Fx<B>, mut f: impl FnMut(&A, &B) -> C) -> Fx<C> {
    let mut o = vec![];
    for (la, a) in &fa.0 {
        for (lb, b) in &fb.0 {
            o.push((cat(la, lb), f(a, b)));
        }
    }
    Fx(o)
}
impl<T> Applicative for Fx<T> {
    fn apply<A, B: Clone>(&self, v: &Fx<A>) -> Fx<B>
    where
        T: Fn(&A) -> B,
    {
        pairs(self, v, |f, a| f(a))
    }
    fn lift2<A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C>(f: F, fa: &Fx<A>, fb: &Fx<B>) -> Fx<C> {
        pairs(fa, fb, f)
    }
    fn lift3<A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D>(f: F, fa: &Fx<A>, fb: &Fx<B>, fc: &Fx<C>) -> Fx<D> {
        let ab = pairs(fa, fb, |a, b| (a.clone(), b.clone()));
        pairs(&ab, fc, |(a, b), c| f(a, b, c))
    }
    fn apply_owned<A: Clone, B: Clone>(self, v: Fx<A>) -> Fx<B>
    where
        T: Fn(A) -> B,
    {
        pairs(&self, &v, |f, a| f(a.clone()))
    }
    fn lift2_owned<A: Clone, B: Clone, C: Clone, F: Fn(A, B) -> C>(f: F, fa: Fx<A>, fb: Fx<B>) -> Fx<C> {
        pairs(&fa, &fb, |a, b| f(a.clone(), b.clone()))
    }
    fn lift3_owned<A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(A, B, C) -> D>(f: F, fa: Fx<A>, fb: Fx<B>, fc: Fx<C>) -> Fx<D> {
        Self::lift3(|a: &A, b: &B, c: &C| f(a.clone(), b.clone(), c.clone()), &fa, &fb, &fc)
    }
}
fn binds<A, B>(m: &Fx<A>, mut f: impl FnMut(&A) -> Fx<B>) -> Fx<B> {
    let mut o = vec![];
    for (l, x) in &m.0 {
        for (l2, y) in f(x).0 {
            o.push((cat(l, &l2), y));
        }
    }
    Fx(o)
}
impl<T> Monad for Fx<T> {
    fn join<U: Clone>(&self) -> Fx<U>
    where
        T: Clone + Into<Fx<U>>,
    {
        binds(self, |x| x.clone().into())
    }
    fn bind<U: Clone, F: Fn(&T) -> Fx<U>>(&self, f: F) -> Fx<U>
    where
        T: Clone,
    {
        binds(self, f)
    }
    fn bind_owned<U: Clone, F: Fn(T) -> Fx<U>>(self, f: F) -> Fx<U> {
        let mut o = vec![];
        for (l, x) in self.0 {
            for (l2, y) in f(x).0 {
                o.push((cat(&l, &l2), y));
            }
        }
        Fx(o)
    }
    fn join_owned<U: Clone>(self) -> Fx<U>
    where
        T: Into<Fx<U>>,
    {
        self.bind_owned(|x| x.into())
    }
}
fn gen_fx<T>(r: &mut Rng, max: usize, mut g: impl FnMut(&mut Rng) -> T) -> Fx<T> {
    let n = r.below(max + 1);
    Fx((0..n).map(|_| (r.vec_tail(3), g(r))).collect())
}

/// a tree folded in order through nested calls, only the two required folds written
#[derive(Clone, Debug)]
enum Tree<T> {
    Tip,
    Node(Box<Tree<T>>, T, Box<Tree<T>>),
}
impl<T> HKT for Tree<T> {
    type Source = T;
    type Output<U> = Tree<U>;
}
impl<T> Foldable for Tree<T> {
    fn fold_left<U: Clone, F: Fn(&U, &T) -> U>(&self, init: &U, f: F) -> U {
        fn go<T, U: Clone>(t: &Tree<T>, acc: U, f: &dyn Fn(&U, &T) -> U) -> U {
            match t {
                Tree::Tip => acc,
                Tree::Node(l, x, r) => {
                    let a = go(l, acc, f);
                    let a = f(&a, x);
                    go(r, a, f)
                },
            }
        }
        go(self, init.clone(), &f)
    }
    fn fold_right<U: Clone, F: Fn(&T, &U) -> U>(&self, init: &U, f: F) -> U {
        fn go<T, U: Clone>(t: &Tree<T>, acc: U, f: &dyn Fn(&T, &U) -> U) -> U {
            match t {
                Tree::Tip => acc,
                Tree::Node(l, x, r) => {
                    let a = go(r, acc, f);
                    let a = f(x, &a);
                    go(l, a, f)
                },
            }
        }
        go(self, init.clone(), &f)
    }
}
fn tree<T: Clone>(r: &mut Rng, xs: &[T]) -> Tree<T> {
    if xs.is_empty() {
        return Tree::Tip;
    }
    let i = r.below(xs.len());
    Tree::Node(Box::new(tree(r, &xs[..i])), xs[i].clone(), Box::new(tree(r, &xs[i + 1..])))
}

/// words under concatenation: a monoid in which order and multiplicity show; the two ways of combining are counted apart
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
struct Word(Vec<i64>);
impl Semigroup for Word {
    fn combine(&self, o: &Self) -> Self {
        Word(cat(&self.0, &o.0))
    }
    fn combine_owned(mut self, o: Self) -> Self {
        self.0.extend(o.0);
        self
    }
}
impl Monoid for Word {
    fn empty() -> Self {
        Word(vec![])
    }
}
impl From<i64> for Word {
    fn from(x: i64) -> Word {
        Word(vec![x])
    }
}

/// a computation whose evaluations are recorded
#[derive(Clone, Debug)]
struct Cell1<T> {
    v: T,
    id: i64,
    log: Rc<RefCell<Vec<i64>>>,
}
impl<T> HKT for Cell1<T> {
    type Source = T;
    type Output<U> = Cell1<U>;
}
impl<T: Clone> Evaluate for Cell1<T> {
    fn evaluate(&self) -> T {
        self.log.borrow_mut().push(self.id);
        self.v.clone()
    }
}
impl<T: Clone> Identity for Cell1<T> {
    fn value(&self) -> &T {
        &self.v
    }
    fn into_value(self) -> T {
        self.v
    }
}
/// keeps the last result only
struct LastOnly;
impl NaturalTransformation<Fx<()>, Tree<()>> for LastOnly {
    fn transform<A: Clone>(&self, fa: &Fx<A>) -> Tree<A> {
        match fa.0.last() {
            None => Tree::Tip,
            Some((_, x)) => Tree::Node(Box::new(Tree::Tip), x.clone(), Box::new(Tree::Tip)),
        }
    }
}
/// adding a number, an isomorphism unless the range is cut
#[derive(Clone, Debug)]
struct Add(i64, Option<i64>);
impl Iso<i64, i64> for Add {
    type From = i64;
    type To = i64;
    fn forward(&self, x: &i64) -> i64 {
        let y = x.wrapping_add(self.0);
        self.1.map_or(y, |m| y.min(m))
    }
    fn backward(&self, y: &i64) -> i64 {
        y.wrapping_sub(self.0)
    }
}
/// number to text and back
#[derive(Clone, Debug)]
struct Text;
impl Iso<i64, String> for Text {
    type From = i64;
    type To = String;
    fn forward(&self, x: &i64) -> String {
        x.to_string()
    }
    fn backward(&self, y: &String) -> i64 {
        y.parse().unwrap_or(i64::MIN)
    }
}
/// a container without room for mapped elements: traversing runs the function on every element and keeps nothing
#[derive(Debug)]
struct Drain<T> {
    items: Vec<T>,
}
impl<T> Clone for Drain<T> {
    fn clone(&self) -> Self {
        Drain { items: vec![] }
    }
}
impl<T> HKT for Drain<T> {
    type Source = T;
    type Output<U> = Drain<U>;
}
impl<T> Pure for Drain<T> {
    fn pure<U: Clone>(v: &U) -> Drain<U> {
        Drain { items: vec![v.clone()] }
    }
}
impl<T> Functor for Drain<T> {
    fn fmap<B: Clone, F: Fn(&T) -> B>(&self, f: F) -> Drain<B> {
        Drain { items: self.items.iter().map(f).collect() }
    }
    fn fmap_owned<B: Clone, F: Fn(T) -> B>(self, f: F) -> Drain<B> {
        Drain { items: self.items.into_iter().map(f).collect() }
    }
}
impl<T> Applicative for Drain<T> {
    fn apply<A, B: Clone>(&self, v: &Drain<A>) -> Drain<B>
    where
        T: Fn(&A) -> B,
    {
        Drain { items: self.items.iter().zip(&v.items).map(|(f, a)| f(a)).collect() }
    }
    fn lift2<A: Clone, B: Clone, C: Clone, F: Fn(&A, &B) -> C>(f: F, fa: &Drain<A>, fb: &Drain<B>) -> Drain<C> {
        Drain { items: fa.items.iter().zip(&fb.items).map(|(a, b)| f(a, b)).collect() }
    }
    fn lift3<A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(&A, &B, &C) -> D>(f: F, fa: &Drain<A>, fb: &Drain<B>, fc: &Drain<C>) -> Drain<D> {
        Drain { items: fa.items.iter().zip(&fb.items).zip(&fc.items).map(|((a, b), c)| f(a, b, c)).collect() }
    }
    fn apply_owned<A: Clone, B: Clone>(self, v: Drain<A>) -> Drain<B>
    where
        T: Fn(A) -> B,
    {
        Drain { items: self.items.into_iter().zip(v.items).map(|(f, a)| f(a)).collect() }
    }
    fn lift2_owned<A: Clone, B: Clone, C: Clone, F: Fn(A, B) -> C>(f: F, fa: Drain<A>, fb: Drain<B>) -> Drain<C> {
        Drain { items: fa.items.into_iter().zip(fb.items).map(|(a, b)| f(a, b)).collect() }
    }
    fn lift3_owned<A: Clone, B: Clone, C: Clone, D: Clone, F: Fn(A, B, C) -> D>(f: F, fa: Drain<A>, fb: Drain<B>, fc: Drain<C>) -> Drain<D> {
        Drain { items: fa.items.into_iter().zip(fb.items).zip(fc.items).map(|((a, b), c)| f(a, b, c)).collect() }
    }
}
thread_local! { static INTO: RefCell<Vec<(i64, i64)>> = const { RefCell::new(vec![]) }; }
/// an element that records its copies and its conversion
struct Elem(i64);
impl Clone for Elem {
    fn clone(&self) -> Self {
        INTO.with(|l| l.borrow_mut().push((self.0, 0)));
        Elem(self.0)
    }
}
impl From<Elem> for Option<i64> {
    fn from(e: Elem) -> Self {
        INTO.with(|l| l.borrow_mut().push((e.0, 1)));
        if e.0 % 3 == 0 { None } else { Some(e.0) }
    }
}
/// how traversals fail: the first element whose conversion fails decides
impl<T> Traversable for Drain<T> {
    fn traverse<F: Applicative, B, Func: Fn(&T) -> F::Output<B>>(&self, f: Func) -> F::Output<Drain<B>> {
        for x in &self.items {
            let _ = f(x);
        }
        F::pure(&Drain { items: vec![] })
    }
    fn traverse_owned<F: Applicative, B, Func: FnOnce(T) -> F::Output<B>>(self, f: Func) -> F::Output<Drain<B>> {
        if let Some(x) = self.items.into_iter().next() {
            let _ = f(x);
        }
        F::pure(&Drain { items: vec![] })
    }
}

fn functors(cx: &mut Ctx, r: &mut Rng) {
    let m = gen_fx(r, 6, |r| r.small());
    let n = gen_fx(r, 4, |r| r.string());
    let k: Vec<Fx<i64>> = (0..3).map(|_| gen_fx(r, 3, |r| r.small())).collect();
    let (f, g, d) = (Fun::gen_(r), Fun::gen_(r), r.small());
    let c = || format!("{m:?} {n:?} {k:?} {f:?} {g:?} {d}");
    cx.case("monad", &(format!("{m:?}{n:?}"), f, g, d), m.0.len() > 1 && n.0.len() > 1, c);
    let calls: Log<i64> = Log::new();
    let all: Vec<i64> = m.0.iter().map(|p| p.1).collect();
    macro_rules! same {
        ($sig:expr, $got:expr, $want:expr) => {
            cx.eq($sig, &$got, &$want, c)
        };
    }
    // shape and effects stay, values change
    same!("replace", m.replace(&d), Fx(m.0.iter().map(|p| (p.0.clone(), d)).collect()));
    same!("replace_owned", m.clone().replace_owned(d), m.replace(&d));
    same!("void", m.void(), Fx(m.0.iter().map(|p| (p.0.clone(), ())).collect()));
    same!("void_owned", m.clone().void_owned(), m.void());
    let res = |x: &i64| {
        calls.add(*x);
        if f.pred(*x) { Ok(g.ap(*x)) } else { Err(f.ap(*x)) }
    };
    same!("try_map_or", m.try_map_or(d, res), Fx(m.0.iter().map(|p| (p.0.clone(), if f.pred(p.1) { g.ap(p.1) } else { d })).collect()));
    same!("try_map_or.calls", calls.take(), all);
    let errs: Log<i64> = Log::new();
    let dv = |e: &i64| {
        errs.add(*e);
        e.wrapping_mul(3)
    };
    same!(
        "try_map_or_else",
        m.try_map_or_else(dv, res),
        Fx(m.0.iter().map(|p| (p.0.clone(), if f.pred(p.1) { g.ap(p.1) } else { f.ap(p.1).wrapping_mul(3) })).collect())
    );
    same!("try_map_or_else.calls", (calls.take(), errs.take()), (all.clone(), all.iter().filter(|x| !f.pred(**x)).map(|x| f.ap(*x)).collect::<Vec<_>>()));
    // effects of both, in order, value of one
    type P = Fx<()>;
    same!("sequence_right", P::sequence_right(&m, &n), pairs(&m, &n, |_, b| b.clone()));
    same!("sequence_left", P::sequence_left(&m, &n), pairs(&m, &n, |a, _| *a));
    same!("sequence_right_owned", P::sequence_right_owned(m.clone(), n.clone()), pairs(&m, &n, |_, b| b.clone()));
    same!("sequence_left_owned", P::sequence_left_owned(m.clone(), n.clone()), pairs(&m, &n, |a, _| *a));
    same!("ap2", P::ap2(|a: &i64, b: &String| format!("{a}{b}"), &m, &n), pairs(&m, &n, |a, b| format!("{a}{b}")));
    // monad
    let kl = |x: &i64| {
        calls.add(*x);
        k[f.small(*x, 3) as usize].clone()
    };
    let bound = binds(&m, |x| k[f.small(*x, 3) as usize].clone());
    same!("flat_map", m.flat_map(kl), bound);
    same!("flat_map.calls", calls.take(), all);
    same!("flat_map_owned", m.clone().flat_map_owned(|x| kl(&x)), bound);
    same!("flat_map_owned.calls", calls.take(), all);
    same!("map_and_pure", m.map_and_pure(|x| g.ap(*x)), m.fmap(|x| g.ap(*x)));
    same!(
        "try_bind",
        m.try_bind(&d, |x| if g.pred(*x) { Ok(kl(x)) } else { Err("no") }),
        binds(&m, |x| if g.pred(*x) { k[f.small(*x, 3) as usize].clone() } else { Fx(vec![(vec![], d)]) })
    );
    same!("try_bind.calls", calls.take(), all.iter().copied().filter(|x| g.pred(*x)).collect::<Vec<_>>());
    // pure in all its notations
    let one = Fx(vec![(vec![], d)]);
    same!("pure", [P::pure_owned(d), d.to_pure::<P>(), d.to_pure_owned::<P>(), 1u8.lift_other::<P, i64>(&d), PureType::<P, ()>::lift(&d), PureType::<P, ()>::lift_owned(d)], [one.clone(), one.clone(), one.clone(), one.clone(), one.clone(), one]);
    same!("pair_with", d.pair_with::<P, i64>(&7), Fx(vec![(vec![], (d, 7))]));
    same!("pure_combine", d.combine_with::<P, i64, i64>(&7, |a, b| g.ap2(*a, *b)), Fx(vec![(vec![], g.ap2(d, 7))]));
    // code generic over the traits
    let fs = |x: &i64| f.ap(*x);
    same!("transform_all", transform_all(&k, fs), k.iter().map(|m| m.fmap(fs)).collect::<Vec<_>>());
    let opt = if d % 2 == 0 { Some(m.clone()) } else { None };
    same!("transform_chain", transform_chain(opt.clone(), fs), opt.map(|m| m.fmap(fs)));
    same!("pipeline", Pipeline::new(m.clone()).map(fs).map_owned(|x| g.ap(x)).extract(), m.fmap(|x| g.ap(f.ap(*x))));
    same!("identity_nat", (identity_nat::<P>().transform(&m), identity_nat::<P>().transform_owned(m.clone())), (m.clone(), m.clone()));
    let last = |t: Tree<i64>| t.to_vec();
    let want: Vec<i64> = all.last().copied().into_iter().collect();
    same!("transform_owned", (last(LastOnly.transform(&m)), last(LastOnly.transform_owned(m.clone()))), (want.clone(), want));
    let b = Pipeline::new(k.iter().map(|m| m.0.len()).collect::<Vec<_>>());
    same!("pipeline.iter", b.clone().into_iter().collect::<Vec<_>>(), b.extract());
}
fn transformers(cx: &mut Ctx, r: &mut Rng) {
    let ms: Rc<Vec<Fx<i64>>> = Rc::new((0..4).map(|_| gen_fx(r, 3, |r| r.small())).collect());
    let ms: std::sync::Arc<Vec<Fx<i64>>> = std::sync::Arc::new((*ms).clone());
    let (f, g, e) = (Fun::gen_(r), Fun::gen_(r), r.small());
    let c = || format!("{ms:?} {f:?} {g:?} env {e}");
    cx.case("transformer", &(format!("{ms:?}"), f, g, e), true, c);
    type RT = ReaderT<i64, Fx<i64>, i64>;
    let at = |k: u64| {
        let ms = ms.clone();
        move |e: i64| ms[(f.ap(e).rem_euclid(4) as u64 ^ (k & 3)) as usize].clone()
    };
    let (a, b): (RT, RT) = (ReaderT::new(at(0)), ReaderT::new(at(1)));
    let (ra, rb) = (at(0), at(1));
    cx.eq("reader_t.run", &a.run_reader(e), &ra(e), c);
    cx.eq("reader_t.fmap", &a.fmap(move |x| g.ap(x)).run_reader(e), &ra(e).fmap(|x| g.ap(*x)), c);
    cx.eq("reader_t.combine", &a.combine(&b, move |x: i64, y: i64| g.ap2(x, y)).run_reader(e), &pairs(&ra(e), &rb(e), |x, y| g.ap2(*x, *y)), c);
    let ms2 = ms.clone();
    let k = move |x: i64| {
        let ms = ms2.clone();
        ReaderT::new(move |e: i64| ms[(g.ap2(x, e).rem_euclid(4)) as usize].clone())
    };
    let bound = binds(&ra(e), |x| ms[g.ap2(*x, e).rem_euclid(4) as usize].clone());
    let m = a.bind(k);
    cx.eq("reader_t.bind", &m.run_reader(e), &bound, c);
    cx.eq("reader_t.rerun", &m.clone().run_reader(e), &bound, c);
    cx.eq("reader_t.local", &a.local(move |e| g.ap(e)).run_reader(e), &ra(g.ap(e)), c);
    cx.eq("reader_t.pure", &RT::pure(e, |x: i64| Fx::<()>::pure(&x)).run_reader(0), &Fx(vec![(vec![], e)]), c);
    let l: RT = MonadTransformer::lift(ms[0].clone());
    cx.eq("reader_t.lift", &l.run_reader(e), &ms[0], c);
    let l: RT = rustica::transformers::lift::<RT, Fx<i64>>(ms[1].clone());
    cx.eq("transformers.lift", &l.run_reader(e), &ms[1], c);
    // continuations over the same monad: lifting runs the base effects once, around what follows
    let k0 = {
        let ms = ms.clone();
        move |x: i64| ms[g.ap(x).rem_euclid(4) as usize].clone()
    };
    let lifted: ContT<i64, Fx<i64>, i64> = MonadTransformer::lift(ms[2].clone());
    cx.eq("cont_t.lift", &lifted.run(k0.clone()), &binds(&ms[2], |x| k0(*x)), c);
    let ms3 = ms.clone();
    let nested = lifted.bind(move |x| -> ContT<i64, Fx<i64>, i64> { MonadTransformer::lift(ms3[f.ap(x).rem_euclid(4) as usize].clone()) });
    cx.eq("cont_t.bind", &nested.run(k0.clone()), &binds(&ms[2], |x| binds(&ms[f.ap(*x).rem_euclid(4) as usize], |y| k0(*y))), c);
}
fn folds(cx: &mut Ctx, r: &mut Rng) {
    let n = r.len_tail(40);
    let mut xs: Vec<i64> = (0..n).map(|_| r.small()).collect();
    if r.chance(1, 4) {
        xs.sort();
        if r.chance(1, 2) && n > 1 {
            let i = r.below(n - 1);
            xs.swap(i, i + 1);
        }
    }
    let t = tree(r, &xs);
    let f = Fun::gen_(r);
    let c = || format!("{xs:?} {f:?} {t:?}");
    cx.case("foldable", &(&xs, f), n > 1, c);
    cx.max("tree_elements", n as u64);
    let word = Word(xs.clone());
    cx.eq("fold.to_vec", &t.to_vec(), &xs, c);
    cx.eq("fold.length", &(t.length(), Foldable::is_empty(&t)), &(n, n == 0), c);
    cx.eq("fold.fold_map", &t.fold_map(|x| Word(vec![*x, 0])), &Word(xs.iter().flat_map(|x| [*x, 0]).collect()), c);
    cx.eq("fold.fold_monoid", &t.fold_monoid::<Word>(), &word, c);
    cx.eq("fold.find", &t.find(|x| f.pred(*x)), &xs.iter().copied().find(|x| f.pred(*x)), c);
    cx.eq("fold.quantifiers", &(t.all(|x| f.pred(*x)), t.any(|x| f.pred(*x))), &(xs.iter().all(|x| f.pred(*x)), xs.iter().any(|x| f.pred(*x))), c);
    let probe = r.small();
    cx.eq("fold.contains", &t.contains(&probe), &mon::among(&xs, &probe), c);
    cx.eq("fold.is_sorted", &FoldableExt::is_sorted(&t), &mon::in_order(&xs), c);
    cx.eq("fold.extremes", &(FoldableExt::maximum(&t), FoldableExt::minimum(&t)), &(xs.iter().max().copied(), xs.iter().min().copied()), c);
    cx.eq("fold.reduce", &FoldableExt::reduce(&t, |a, b| f.ap2(*a, *b)), &xs.iter().copied().reduce(|a, b| f.ap2(a, b)), c);
    let fo = t.fold_option(|x| if *x == probe { None } else { Some(Word(vec![*x])) });
    cx.eq("fold.fold_option", &fo, &if mon::among(&xs, &probe) { None } else { Some(word.clone()) }, c);
    let ws = tree(r, &xs.iter().map(|x| *x as i128).collect::<Vec<_>>());
    cx.eq("fold.sum", &ws.sum_values(), &xs.iter().map(|x| *x as i128).sum::<i128>(), c);
    if n <= 12 && xs.iter().all(|x| x.abs() < 1000) {
        cx.eq("fold.product", &ws.product_values(), &xs.iter().map(|x| *x as i128).product::<i128>(), c);
    }
}
fn monoids(cx: &mut Ctx, r: &mut Rng) {
    let n = r.len_tail(30);
    let ws: Vec<Word> = (0..n).map(|_| Word(r.vec_tail(3))).collect();
    let w = Word(r.vec_tail(3));
    let k = r.len_tail(20);
    let c = || format!("{w:?} {ws:?} n={k}");
    cx.case("monoid", &(&ws, &w, k), n > 1, c);
    let all = Word(ws.iter().flat_map(|w| w.0.clone()).collect());
    let times = |k: usize| Word(w.0.repeat(k));
    cx.eq("monoid.combine_all", &monoid::combine_all(ws.clone()), &all, c);
    cx.eq("monoid.mconcat", &monoid::mconcat(&ws), &all, c);
    cx.eq("monoid.repeat", &monoid::repeat(w.clone(), k), &times(k), c);
    cx.eq("monoid.power", &monoid::power(w.clone(), k), &times(k), c);
    cx.eq("monoid.is_empty", &(w.is_empty_monoid(), Word(vec![]).is_empty_monoid()), &(w.0.is_empty(), true), c);
    cx.eq("semigroup.combine_all", &w.clone().combine_all(ws.clone()), &w.combine(&all), c);
    if n > 0 {
        cx.eq("semigroup.combine_all_owned", &Word::combine_all_owned(ws.clone()), &all, c);
    }
    if k > 0 {
        cx.eq("semigroup.combine_n", &(w.combine_n(&k), w.clone().combine_n_owned(k)), &(times(k), times(k)), c);
    }
    cx.eq("semigroup.combine_all_values", &semigroup::combine_all_values(ws.clone()), &if n == 0 { None } else { Some(all.clone()) }, c);
    cx.eq("semigroup.combine_values", &semigroup::combine_values(w.clone(), ws.clone()), &w.combine(&all), c);
    // library types built out of it
    let ids: Vec<Id<Word>> = ws.iter().cloned().map(Id::new).collect();
    cx.eq("monoid.id", &monoid::mconcat(&ids), &Id::new(all.clone()), c);
    let ts: Vec<(Word, Option<Word>, Word)> = ws.iter().map(|x| (x.clone(), Some(w.clone()), w.combine(x))).collect();
    let want = if n == 0 { None } else { Some((all.clone(), Some(times(n)), Word(ws.iter().flat_map(|x| cat(&w.0, &x.0)).collect()))) };
    cx.eq("semigroup.tuple", &semigroup::combine_all_values(ts), &want, c);
    let steps: Vec<Writer<Word, i64>> = ws.iter().enumerate().map(|(i, x)| Writer::new(x.clone(), i as i64)).collect();
    let chained = steps.into_iter().fold(Writer::new(w.clone(), 0), |a: Writer<Word, i64>, s| a.bind_owned(move |t| s.clone().fmap_owned(move |i| i + t)));
    cx.eq("writer.user_log", &chained.run(), &(w.combine(&all), (0..n as i64).sum()), c);
}
fn evaluates(cx: &mut Ctx, r: &mut Rng) {
    let log = Rc::new(RefCell::new(vec![]));
    let (x, y) = (r.small(), r.small());
    let (a, b) = (Cell1 { v: x, id: 1, log: log.clone() }, Cell1 { v: y, id: 2, log: log.clone() });
    let f = Fun::gen_(r);
    let c = || format!("{x} {y} {f:?}");
    cx.case("evaluate", &(x, y, f), true, c);
    let mk = {
        let log = log.clone();
        move |v: i64| Cell1 { v: f.ap(v), id: 3, log: log.clone() }
    };
    let fx = f.ap(x);
    let keep = if f.pred(x) { Some(x) } else { None };
    let mut one = |cx: &mut Ctx, sig: &str, got: i64, want: i64, ev: &[i64]| {
        cx.eq(sig, &got, &want, c);
        let l = log.take();
        cx.count("evaluations", l.len() as u64);
        cx.eq(&format!("{sig}.evaluations"), &l, &Vec::from(ev), c);
    };
    one(cx, "evaluate_owned", a.clone().evaluate_owned(), x, &[1]);
    one(cx, "fmap_evaluate", a.fmap_evaluate(|v| f.ap(v)), fx, &[1]);
    one(cx, "map_evaluate", a.map_evaluate(|v| f.ap(v)), fx, &[1]);
    one(cx, "fmap_evaluate_owned", a.clone().fmap_evaluate_owned(|v| f.ap(v)), fx, &[1]);
    one(cx, "map_evaluate_owned", a.clone().map_evaluate_owned(|v| f.ap(v)), fx, &[1]);
    one(cx, "bind_evaluate", a.bind_evaluate(&mk), fx, &[1, 3]);
    one(cx, "and_then_evaluate", a.and_then_evaluate(&mk), fx, &[1, 3]);
    one(cx, "bind_evaluate_owned", a.clone().bind_evaluate_owned(&mk), fx, &[1, 3]);
    one(cx, "and_then_evaluate_owned", a.clone().and_then_evaluate_owned(&mk), fx, &[1, 3]);
    one(cx, "combine_evaluate", a.combine_evaluate(&b, |p, q| f.ap2(p, q)), f.ap2(x, y), &[1, 2]);
    one(cx, "combine_evaluate_owned", a.clone().combine_evaluate_owned(b, |p, q| f.ap2(p, q)), f.ap2(x, y), &[1, 2]);
    let fl = (a.filter_evaluate(|v| f.pred(*v)), log.take());
    cx.eq("filter_evaluate", &fl, &(keep, vec![1]), c);
    let fl = (a.clone().filter_evaluate_owned(|v| f.pred(*v)), log.take());
    cx.eq("filter_evaluate_owned", &fl, &(keep, vec![1]), c);
    cx.eq("identity.try", &(a.try_value().copied(), a.clone().try_into_value()), &(Some(x), Some(x)), c);
    // isomorphisms of one's own
    let (d, cut) = (r.small(), r.small());
    let i = Add(d, None);
    let bad = Add(d, Some(cut));
    cx.eq("iso.compose", &{
        let j = i.iso_compose::<String, _>(Text);
        (j.forward(&x), j.backward(&y.to_string()), j.convert_forward(&x))
    }, &((x + d).to_string(), y - d, (x + d).to_string()), c);
    cx.eq("iso.inverse", &(i.inverse().forward(&x), i.inverse().backward(&x), i.convert_backward(&x)), &(x - d, x + d, x - d), c);
    cx.eq("iso.map", &(i.map_from_target(|v| f.ap(*v))(&x), i.map_from_source(|v| f.ap(*v))(&x)), &(f.ap(x + d), f.ap(x - d)), c);
    let (ft, fs) = (i.map_from_target(|v| f.ap(*v)), i.map_from_source(|v| f.ap(*v)));
    cx.eq("iso.map.again", &(ft(&x), ft(&y), fs(&x), fs(&y)), &(f.ap(x + d), f.ap(y + d), f.ap(x - d), f.ap(y - d)), c);
    cx.eq("iso.modify", &IsoExt::modify(&i, &x, |v| v.wrapping_mul(2)), &((x + d).wrapping_mul(2).wrapping_sub(d)), c);
    cx.eq("iso.verify_laws", &(i.verify_laws(&x, &y), bad.verify_laws(&x, &y)), &(true, x + d <= cut && y <= cut), c);
    cx.count(if x + d <= cut && y <= cut { "lawful_isos" } else { "unlawful_isos" }, 1);
}
fn traversals(cx: &mut Ctx, r: &mut Rng) {
    let xs = r.vec_small(6);
    let c = || format!("{xs:?}");
    cx.case("traversable", &xs, xs.len() > 1, c);
    let mk = || Drain { items: xs.iter().map(|x| Elem(*x)).collect::<Vec<_>>() };
    INTO.take();
    let d = mk();
    let got = d.sequence::<Option<i64>>();
    let want: Vec<i64> = xs.clone();
    let converted = |l: Vec<(i64, i64)>| l.into_iter().filter(|p| p.1 == 1).map(|p| p.0).collect::<Vec<_>>();
    cx.eq("sequence.elements", &converted(INTO.take()), &want, c);
    cx.eq("sequence.result", &got.map(|d| d.items.len()), &Some(0), c);
    let got = d.sequence_owned::<Option<i64>>();
    cx.eq("sequence_owned.elements", &converted(INTO.take()), &xs.first().copied().into_iter().collect::<Vec<_>>(), c);
    cx.eq("sequence_owned.result", &got.map(|d| d.items.len()), &Some(0), c);
}
fn main() {
    main_with("C32", |cx| {
        cx.rule = "an instance of a harness-defined type together with function codes, counted once per distinct combination; non-trivial when at least two elements are involved".into();
        cx.assumptions = vec!["the harness's own instances of the required methods are lawful".into()];
        for (k, n) in [("cases.monad", 3_000), ("cases.transformer", 3_000), ("cases.foldable", 3_000), ("cases.monoid", 3_000), ("cases.evaluate", 3_000), ("cases.traversable", 2_000), ("evaluations", 10_000), ("unlawful_isos", 300), ("lawful_isos", 300)] {
            cx.require(k, n);
        }
        let n = cx.n(12_000, 1_200_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                let r = &mut r;
                for (s, f) in [("functors", functors as fn(&mut Ctx, &mut Rng)), ("transformers", transformers), ("folds", folds), ("monoids", monoids), ("evaluates", evaluates), ("traversals", traversals)] {
                    let seed = r.u64();
                    let mut q = Rng::new(seed);
                    let mut failed = None;
                    if let Err(p) = quiet(|| f(cx, &mut q)) {
                        failed = Some(p);
                    }
                    if let Some(p) = failed {
                        cx.violation(format!("{s}.panic"), format!("seed {seed}: {}", p.msg));
                    }
                }
            }
        });
    });
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let f = Fun::gen_(r);
    let c = || format!("{few} and {n} {f:?}");
    cx.case("wide", &(few, n, f), true, c);
    let opts: Vec<Option<i64>> = (0..n as i64).map(|i| (i % 4 > 0).then_some(i)).collect();
    cx.check("wide.transform_all", transform_all(&opts, |x| f.ap(*x)) == opts.iter().map(|o| o.map(|x| f.ap(x))).collect::<Vec<_>>(), c);
    let ws: Vec<Word> = (0..few as i64).map(|i| Word(vec![i])).collect();
    let all = Word((0..few as i64).collect());
    cx.check("wide.monoid", monoid::combine_all(ws.clone()) == all && monoid::mconcat(&ws) == all && Word::combine_all_owned(ws.clone()) == all && semigroup::combine_all_values(ws) == Some(all), c);
    let w = Word(vec![r.small(), 1]);
    let times = Word(w.0.repeat(few));
    cx.check("wide.repeat", monoid::repeat(w.clone(), few) == times && monoid::power(w.clone(), few) == times && w.combine_n(&few) == times && w.clone().combine_n_owned(few) == times, c);
    let list: Vec<i64> = (0..n as i64).collect();
    let t = Pipeline::new(list.clone()).map(|x| f.ap(*x)).map_owned(|x| f.ap(x)).extract();
    cx.check("wide.pipeline", t == list.iter().map(|x| f.ap(f.ap(*x))).collect::<Vec<_>>(), c);
}
