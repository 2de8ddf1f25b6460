//! C26: function category, arrows, helpers and predicates.
use mon::*;
use rustica::category::function_category::{Arrow, Category, FunctionCategory as FC, FunctionMorphism as FM};
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::traits::contravariant_functor::{ContravariantFunctor, ContravariantFunctorExt};
use rustica::traits::hkt::HKT;
use rustica::traits::monoid::{self, Monoid};
use rustica::traits::natural_transformation::{NaturalTransformation, identity_nat};
use rustica::traits::semigroup::{Semigroup, SemigroupExt};
use rustica::utils::functions::{const_fn, id};
use rustica::{compose, function, pipe};

type Ev = (u32, i64);
/// a morphism that logs which component ran on what
fn step(t: u32, f: Fun, log: &Log<Ev>) -> impl Fn(i64) -> i64 + Clone + 'static {
    let log = log.clone();
    move |x| {
        log.add((t, x));
        f.ap(x)
    }
}
#[derive(Clone, Debug, Hash)]
enum A {
    Id,
    F(u32, Fun),
    /// g after f
    Comp(Box<A>, Box<A>),
    When(u32, Fun, u32, Fun),
    ThenIf(Box<A>, Box<A>, u32, Fun),
    Seq(Vec<(u32, Fun)>),
    Lift(u32, Fun),
    /// split then merge, first then merge, second then merge, both components
    Split(Box<A>, Box<A>),
    First(Box<A>),
    Second(Box<A>),
    Par(Box<A>, Box<A>),
    Both(u32, Fun),
    Compose3(u32, [Fun; 3]),
    Pipe3(u32, [Fun; 3]),
}
fn gen_a(r: &mut Rng, d: usize, tag: &mut u32) -> A {
    *tag += 4;
    let (t, f) = (*tag, Fun::gen_(r));
    if d == 0 || r.chance(1, 8) {
        return match r.below(8) {
            0 => A::Id,
            1 => A::When(t, f, t + 1, Fun::gen_(r)),
            2 => A::Seq((0..r.len_tail(6) as u32).map(|i| (t * 100 + i, Fun::gen_(r))).collect()),
            3 => A::Lift(t, f),
            4 => A::Both(t, f),
            5 => A::Compose3(t, [f, Fun::gen_(r), Fun::gen_(r)]),
            6 => A::Pipe3(t, [f, Fun::gen_(r), Fun::gen_(r)]),
            _ => A::F(t, f),
        };
    }
    let mut sub = |r: &mut Rng| Box::new(gen_a(r, d - 1, tag));
    match r.below(9) {
        0..=2 => A::Comp(sub(r), sub(r)),
        3 => A::ThenIf(sub(r), sub(r), t, f),
        4 => A::Split(sub(r), sub(r)),
        5 => A::First(sub(r)),
        6 => A::Second(sub(r)),
        7 => A::Par(sub(r), sub(r)),
        _ => A::Comp(sub(r), Box::new(A::F(t, f))),
    }
}
fn pred(t: u32, f: Fun, log: &Log<Ev>) -> impl Fn(&i64) -> bool + Clone + 'static {
    let log = log.clone();
    move |x| {
        log.add((t, *x));
        f.pred(*x)
    }
}
fn merge(p: (i64, i64)) -> i64 {
    (p.0 * 3 - p.1 * 7) % 1000
}
fn build(a: &A, log: &Log<Ev>) -> FM<i64, i64> {
    let m = || FC::arrow(merge);
    let dup = || FC::arrow(|x: i64| (x, x + 1));
    match a {
        A::Id => FC::identity_morphism(),
        A::F(t, f) => FC::arrow(step(*t, *f, log)),
        A::Comp(g, f) => FC::compose_morphisms(&build(g, log), &build(f, log)),
        A::When(t, p, u, f) => FC::when(pred(*t, *p, log), step(*u, *f, log)),
        A::ThenIf(f, g, t, p) => {
            #[allow(deprecated)]
            if t % 8 == 0 {
                FC::compose_when(&build(f, log), &build(g, log), pred(*t, *p, log))
            } else {
                FC::then_if(&build(f, log), &build(g, log), pred(*t, *p, log))
            }
        },
        A::Seq(fs) => FC::sequence(fs.iter().map(|(t, f)| step(*t, *f, log)).collect()),
        A::Lift(t, f) => FC::lift(step(*t, *f, log)),
        A::Split(f, g) => FC::compose_morphisms(&m(), &FC::split(&build(f, log), &build(g, log))),
        A::First(f) => FC::compose_morphisms(&m(), &FC::compose_morphisms(&FC::first(&build(f, log)), &dup())),
        A::Second(f) => FC::compose_morphisms(&m(), &FC::compose_morphisms(&FC::second(&build(f, log)), &dup())),
        A::Par(f, g) => FC::compose_morphisms(&m(), &FC::compose_morphisms(&FC::combine_morphisms(&build(f, log), &build(g, log)), &dup())),
        A::Both(t, f) => FC::compose_morphisms(&m(), &FC::compose_morphisms(&FC::both(step(*t, *f, log)), &dup())),
        A::Compose3(t, [f, g, h]) => compose!(step(*t, *f, log), step(t + 1, *g, log), step(t + 2, *h, log)),
        A::Pipe3(t, [f, g, h]) => pipe!(step(*t, *f, log), step(t + 1, *g, log), step(t + 2, *h, log)),
    }
}
fn eval(a: &A, x: i64, ev: &mut Vec<Ev>) -> i64 {
    let st = |t: u32, f: Fun, x: i64, ev: &mut Vec<Ev>| {
        ev.push((t, x));
        f.ap(x)
    };
    match a {
        A::Id => x,
        A::F(t, f) | A::Lift(t, f) => st(*t, *f, x, ev),
        A::Comp(g, f) => {
            let y = eval(f, x, ev);
            eval(g, y, ev)
        },
        A::When(t, p, u, f) => {
            ev.push((*t, x));
            if p.pred(x) { st(*u, *f, x, ev) } else { x }
        },
        A::ThenIf(f, g, t, p) => {
            let y = eval(f, x, ev);
            ev.push((*t, y));
            if p.pred(y) { eval(g, y, ev) } else { y }
        },
        A::Seq(fs) => fs.iter().fold(x, |x, (t, f)| st(*t, *f, x, ev)),
        A::Split(f, g) => {
            let a = eval(f, x, ev);
            merge((a, eval(g, x, ev)))
        },
        A::First(f) => merge((eval(f, x, ev), x + 1)),
        A::Second(f) => merge((x, eval(f, x + 1, ev))),
        A::Par(f, g) => {
            let a = eval(f, x, ev);
            merge((a, eval(g, x + 1, ev)))
        },
        A::Both(t, f) => {
            let a = st(*t, *f, x, ev);
            merge((a, st(*t, *f, x + 1, ev)))
        },
        A::Compose3(t, [f, g, h]) => {
            let a = st(t + 2, *h, x, ev);
            let b = st(t + 1, *g, a, ev);
            st(*t, *f, b, ev)
        },
        A::Pipe3(t, [f, g, h]) => {
            let a = st(*t, *f, x, ev);
            let b = st(t + 1, *g, a, ev);
            st(t + 2, *h, b, ev)
        },
    }
}
fn arrows(cx: &mut Ctx, r: &mut Rng) {
    let mut tag = 0;
    let d = 1 + r.below(4);
    let a = gen_a(r, d, &mut tag);
    let log = Log::new();
    let xs: Vec<i64> = (0..3).map(|_| r.small()).collect();
    let c = || format!("{a:?}");
    let Some(m) = cx.guard("arrow.build", c, || build(&a, &log)) else { return };
    cx.eq("arrow.build.lazy", &log.take(), &vec![], c);
    for x in xs {
        let mut ev = vec![];
        let want = eval(&a, x, &mut ev);
        cx.case("arrow", &(&a, x), ev.len() > 1, c);
        cx.max("arrow.calls", ev.len() as u64);
        if let Some(got) = cx.guard("arrow.run", c, || m(x)) {
            cx.eq("arrow.value", &got, &want, c);
            cx.eq("arrow.calls", &log.take(), &ev, c);
        }
    }
}
/// laws on composite morphisms, and the shapes of the pair combinators
fn laws(cx: &mut Ctx, r: &mut Rng) {
    let mut tag = 0;
    let d = r.below(3);
    let (f, g, h) = (gen_a(r, d, &mut tag), gen_a(r, d, &mut tag), gen_a(r, d, &mut tag));
    let (x, y) = (r.small(), r.small());
    let s = r.string();
    let log = Log::new();
    let c = || format!("f={f:?} g={g:?} h={h:?} x={x} y={y}");
    cx.case("laws", &(&f, &g, &h, x, y), true, c);
    let (mf, mg, mh) = (build(&f, &log), build(&g, &log), build(&h, &log));
    let run = |m: FM<i64, i64>| (m(x), log.take());
    let i = FC::identity_morphism::<i64>;
    let o = |a: &FM<i64, i64>, b: &FM<i64, i64>| FC::compose_morphisms(a, b);
    let base = run(mf.clone());
    cx.eq("law.left_id", &run(o(&i(), &mf)), &base, c);
    cx.eq("law.right_id", &run(o(&mf, &i())), &base, c);
    let l = run(o(&o(&mh, &mg), &mf));
    let rr = run(o(&mh, &o(&mg, &mf)));
    cx.eq("law.assoc", &l, &rr, c);
    let mut ev = vec![];
    let want = {
        let a = eval(&f, x, &mut ev);
        let b = eval(&g, a, &mut ev);
        eval(&h, b, &mut ev)
    };
    cx.eq("law.compose", &l, &(want, ev), c);
    // pair combinators: each touches only its side, a heap value rides along
    let (fx, _) = run(mf.clone());
    let fy = {
        let v = mf(y);
        log.take();
        v
    };
    let gy = {
        let v = mg(y);
        log.take();
        v
    };
    let gx = run(mg.clone()).0;
    cx.eq("pair.first", &FC::first(&mf)((x, s.clone())), &(fx, s.clone()), c);
    cx.eq("pair.second", &FC::second(&mf)((s.clone(), x)), &(s.clone(), fx), c);
    cx.eq("pair.split", &FC::split(&mf, &mg)(x), &(fx, gx), c);
    cx.eq("pair.combine", &FC::combine_morphisms(&mf, &mg)((x, y)), &(fx, gy), c);
    cx.eq("pair.combine.types", &FC::combine_morphisms(&FC::arrow(|n: i64| n.to_string()), &FC::arrow(|s: String| s.len()))((x, s.clone())), &(x.to_string(), s.len()), c);
    cx.eq("pair.split.types", &FC::split(&FC::arrow(|s: String| s.len()), &FC::arrow(|s: String| s + "!"))(s.clone()), &(s.len(), format!("{s}!")), c);
    let mf2 = mf.clone();
    cx.eq("pair.both", &FC::both(move |v| mf2(v))((x, y)), &(fx, fy), c);
    log.take();
    // first f ; second g == combine f g ; split == combine after duplicating
    let ab = FC::compose_morphisms(&FC::second(&mg), &FC::first(&mf));
    cx.eq("law.first_second", &ab((x, y)), &(fx, gy), c);
    // macros
    function!(inc: i64 => i64 = |x: i64| x.wrapping_add(1));
    cx.eq("macro.function", &inc(x), &(x + 1), c);
    cx.eq("macro.pipe1", &(pipe!(|v: i64| v + 1))(x), &(x + 1), c);
    cx.eq("macro.compose1", &(compose!(|v: i64| v + 1))(x), &(x + 1), c);
    let p = pipe!(|v: i64| v.to_string(), |s: String| s + "a", |s: String| s.len(), |n: usize| (n, n + 1));
    let n = x.to_string().len() + 1;
    cx.eq("macro.pipe4", &p(x), &(n, n + 1), c);
    let q = compose!(|n: usize| (n, n + 1), |s: String| s.len(), |s: String| s + "a", |v: i64| v.to_string(),);
    cx.eq("macro.compose4", &q(x), &(n, n + 1), c);
    // helpers
    cx.eq("id", &id(s.clone()), &s, c);
    use rustica::utils::categorical_utils as cu;
    let (lf, lg) = (step(901, Fun::gen_(r), &log), step(902, Fun::gen_(r), &log));
    log.take();
    let want = lg(lf(x));
    let order = log.take();
    let (co, pi) = (cu::compose(lg.clone(), lf.clone()), cu::pipe(lf.clone(), lg.clone()));
    cx.eq("fn.compose", &(co(x), log.take()), &(want, order.clone()), c);
    cx.eq("fn.pipe", &(pi(x), log.take()), &(want, order.clone()), c);
    // the same composites at another argument, and back
    let want_y = lg(lf(y));
    let order_y = log.take();
    for (n, got) in [("fn.compose", (co(y), log.take(), co(x), log.take())), ("fn.pipe", (pi(y), log.take(), pi(x), log.take()))] {
        cx.eq(n, &got, &(want_y, order_y.clone(), want, order.clone()), c);
    }
    let (u, v) = (cu::pipe(|n: i64| n.to_string(), |s: String| s.len())(x), cu::compose(|s: String| s.len(), |n: i64| n.to_string())(x));
    cx.eq("fn.types", &(u, v), &(n - 1, n - 1), c);
    let fl = cu::flip(|a: i64, b: String| format!("{a}|{b}"));
    cx.eq("fn.flip", &(fl(s.clone(), x), cu::flip(fl)(y, s.clone())), &(format!("{x}|{s}"), format!("{y}|{s}")), c);
    let k = const_fn::<_, i64>(s.clone());
    cx.eq("const_fn", &(k(x), k(y)), &(s.clone(), s.clone()), c);
    cx.eq("sequence.empty", &FC::sequence(Vec::<fn(i64) -> i64>::new())(x), &x, c);
    // the identity natural transformation
    let v: Vec<i64> = vec![x, y];
    let nat = identity_nat::<Vec<i64>>();
    cx.eq("identity_nat", &nat.transform::<i64>(&v), &v, c);
    cx.eq("identity_nat.owned", &nat.transform_owned::<String>(vec![s.clone(); 2]), &vec![s.clone(); 2], c);
}

// ------------------------------------------------------------------ predicates
#[derive(Clone, Debug, Hash)]
enum P {
    Base(Fun),
    Or(Box<P>, Box<P>, u8),
    And(Box<P>, Box<P>, bool),
    Diff(Box<P>, Box<P>, bool),
    Not(Box<P>, bool),
    Empty,
    /// n-ary union through the monoid and semigroup helpers
    Many(Vec<P>, u8),
}
fn gen_p(r: &mut Rng, d: usize) -> P {
    if d == 0 || r.chance(1, 8) {
        return if r.chance(1, 8) { P::Empty } else { P::Base(Fun::gen_(r)) };
    }
    let sub = |r: &mut Rng| Box::new(gen_p(r, d - 1));
    match r.below(9) {
        0 | 1 => P::Or(sub(r), sub(r), r.below(4) as u8),
        2 | 3 => P::And(sub(r), sub(r), r.chance(1, 2)),
        4 | 5 => P::Diff(sub(r), sub(r), r.chance(1, 2)),
        6 | 7 => P::Not(sub(r), r.chance(1, 2)),
        _ => {
            let n = r.below(4);
            P::Many((0..n).map(|_| *sub(r)).collect(), r.below(3) as u8)
        },
    }
}
fn bp(p: &P) -> Predicate<(i64, String)> {
    match p {
        P::Base(f) => {
            let f = *f;
            Predicate::new(move |x: &(i64, String)| f.pred(x.0 + x.1.len() as i64))
        },
        P::Or(a, b, 0) => bp(a).union(&bp(b)),
        P::Or(a, b, 1) => bp(a) | bp(b),
        P::Or(a, b, 2) => bp(a).combine(&bp(b)),
        P::Or(a, b, _) => bp(a).combine_owned(bp(b)),
        P::And(a, b, true) => bp(a).intersection(&bp(b)),
        P::And(a, b, false) => bp(a) & bp(b),
        P::Diff(a, b, true) => bp(a).diff(&bp(b)),
        P::Diff(a, b, false) => bp(a) - bp(b),
        P::Not(a, true) => bp(a).negate(),
        P::Not(a, false) => !bp(a),
        P::Empty => Predicate::empty(),
        P::Many(ps, 0) => monoid::combine_all(ps.iter().map(bp).collect::<Vec<_>>()),
        P::Many(ps, 1) => monoid::mconcat(&ps.iter().map(bp).collect::<Vec<_>>()),
        P::Many(ps, _) => match &ps[..] {
            [] => Predicate::empty(),
            [h, t @ ..] => bp(h).combine_all(t.iter().map(bp).collect::<Vec<_>>()),
        },
    }
}
fn ep(p: &P, x: &(i64, String)) -> bool {
    match p {
        P::Base(f) => f.pred(x.0 + x.1.len() as i64),
        P::Or(a, b, _) => ep(a, x) | ep(b, x),
        P::And(a, b, _) => ep(a, x) & ep(b, x),
        P::Diff(a, b, _) => ep(a, x) & !ep(b, x),
        P::Not(a, _) => !ep(a, x),
        P::Empty => false,
        P::Many(ps, _) => ps.iter().any(|p| ep(p, x)),
    }
}
fn preds(cx: &mut Ctx, r: &mut Rng) {
    let d = 1 + r.below(4);
    let p = gen_p(r, d);
    let c = || format!("{p:?}");
    let Some(q) = cx.guard("pred.build", c, || bp(&p)) else { return };
    for i in 0..12 {
        let x = (r.small(), r.string());
        cx.case("pred", &(&p, &x), !matches!(p, P::Base(_)), || format!("{p:?} at {x:?}"));
        if let Some(got) = cx.guard("pred.contains", c, || q.contains(&x)) {
            let want = ep(&p, &x);
            cx.count(if want { "pred.true" } else { "pred.false" }, 1);
            cx.eq("pred.contains", &got, &want, || format!("{p:?} at {x:?}"));
            if i == 0 {
                cx.eq("pred.clone", &q.clone().contains(&x), &want, c);
            }
        }
    }
    // operands stay usable and unchanged after being combined
    let (a, b) = (gen_p(r, 2), gen_p(r, 2));
    let (pa, pb) = (bp(&a), bp(&b));
    let combos = [pa.union(&pb), pa.intersection(&pb), pa.diff(&pb), pa.negate()];
    for _ in 0..4 {
        let x = (r.small(), r.string());
        let (va, vb) = (ep(&a, &x), ep(&b, &x));
        let c = || format!("{a:?} / {b:?} at {x:?}");
        cx.eq("pred.operands", &(pa.contains(&x), pb.contains(&x)), &(va, vb), c);
        let got: Vec<bool> = combos.iter().map(|p| p.contains(&x)).collect();
        cx.eq("pred.combos", &got, &vec![va || vb, va && vb, va && !vb, !va], c);
    }
}

// ------------------------------------------------------------------ default methods on outside instances
/// a second arrow: functions counting how many components ran; uses the default `split`
struct Counting;
type CM<A, B> = std::rc::Rc<dyn Fn(A, &mut u32) -> B>;
impl Category for Counting {
    type Morphism<A, B> = CM<A, B>;
    fn identity_morphism<A>() -> CM<A, A> {
        std::rc::Rc::new(|a, _| a)
    }
    fn compose_morphisms<A: 'static, B: 'static, C: 'static>(g: &CM<B, C>, f: &CM<A, B>) -> CM<A, C> {
        let (g, f) = (g.clone(), f.clone());
        std::rc::Rc::new(move |a, n| {
            let b = f(a, n);
            g(b, n)
        })
    }
}
impl Arrow for Counting {
    fn arrow<B, C, F: Fn(B) -> C + 'static>(f: F) -> CM<B, C> {
        std::rc::Rc::new(move |b, n| {
            *n += 1;
            f(b)
        })
    }
    fn first<B: 'static, C: 'static, D: 'static>(f: &CM<B, C>) -> CM<(B, D), (C, D)> {
        let f = f.clone();
        std::rc::Rc::new(move |(b, d), n| (f(b, n), d))
    }
    fn second<B: 'static, C: 'static, D: 'static>(f: &CM<B, C>) -> CM<(D, B), (D, C)> {
        let f = f.clone();
        std::rc::Rc::new(move |(d, b), n| (d, f(b, n)))
    }
    fn combine_morphisms<B: 'static, C: 'static, D: 'static, E: 'static>(f: &CM<B, C>, g: &CM<D, E>) -> CM<(B, D), (C, E)> {
        let (f, g) = (f.clone(), g.clone());
        std::rc::Rc::new(move |(b, d), n| (f(b, n), g(d, n)))
    }
}
/// Contramapping runs the function on every probe and notes what came out (no 'static bound needed).
struct Seen<A>(Vec<String>, Option<fn(&A) -> String>);
impl<A> HKT for Seen<A> {
    type Source = A;
    type Output<T> = Seen<T>;
}
thread_local!(static PROBE: std::cell::RefCell<Vec<std::rc::Rc<dyn std::any::Any>>> = const { std::cell::RefCell::new(vec![]) });
impl<A> ContravariantFunctor for Seen<A> {
    /// runs f on every probe of the right type and notes what came out
    fn contramap<U, F: Fn(&U) -> A>(&self, f: F) -> Seen<U>
    where
        U: Clone,
    {
        let mut v = self.0.clone();
        PROBE.with(|p| {
            for x in p.borrow().iter() {
                // probes are i64 values; the harness only contramaps from i64
                if let Some(x) = x.downcast_ref::<i64>() {
                    assert_eq!(std::mem::size_of::<U>(), 8);
                    // SAFETY: U is i64 at every call site of this harness
                    let u: &U = unsafe { &*(x as *const i64 as *const U) };
                    v.extend(self.1.map(|s| s(&f(u))));
                }
            }
        });
        Seen(v, None)
    }
    fn contramap_owned<U: Clone, F: Fn(U) -> A>(self, f: F) -> Seen<U> {
        self.contramap(|u: &U| f(u.clone()))
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Big(i64);
impl From<i64> for Big {
    fn from(x: i64) -> Big {
        Big(x * 2)
    }
}
fn defaults(cx: &mut Ctx, r: &mut Rng) {
    let (f, g, x) = (Fun::gen_(r), Fun::gen_(r), r.small());
    let c = || format!("{f:?} {g:?} {x}");
    cx.case("defaults", &(f, g, x), true, c);
    let (mf, mg) = (Counting::arrow(move |v| f.ap(v)), Counting::arrow(move |v| g.ap(v)));
    let mut n = 0;
    cx.eq("default.split", &Counting::split(&mf, &mg)(x, &mut n), &(f.ap(x), g.ap(x)), c);
    let text = Counting::arrow(|v: i64| format!("t{v}"));
    cx.eq("default.split.types", &Counting::split(&text, &mf)(x, &mut n), &(format!("t{x}"), f.ap(x)), c);
    PROBE.with(|p| *p.borrow_mut() = vec![std::rc::Rc::new(x), std::rc::Rc::new(x + 1)]);
    let s = Seen::<Big>(vec!["base".into()], Some(|b| format!("{b:?}")));
    let want = |h: &dyn Fn(i64) -> i64| vec!["base".to_string(), format!("{:?}", Big(h(x))), format!("{:?}", Big(h(x + 1)))];
    cx.eq("default.contramap_with", &s.contramap_with(|u: &i64| Big(f.ap(*u))).0, &want(&|v| f.ap(v)), c);
    cx.eq("default.contramap_const", &s.contramap_const::<i64>(Big(g.ap(x))).0, &want(&|_| g.ap(x)), c);
    cx.eq("default.contra_compose", &s.contra_compose(&Seen::<i64>(vec![], None)).0, &want(&|v| v * 2), c);
}

fn main() {
    main_with("C26", |cx| {
        cx.rule = "a morphism or predicate expression with its argument, counted once per distinct combination; arrow cases only when more than one component runs".into();
        mon::shapes::rounds(cx);
        cx.assumptions = vec!["component functions are deterministic".into(), "the library ships no instance of the contravariant functor; its default methods are watched on an instance of the harness".into()];
        for (k, n) in [("cases.arrow", 10_000), ("cases.laws", 5_000), ("pred.true", 10_000), ("pred.false", 10_000)] {
            cx.require(k, n);
        }
        let mut r = cx.rng.split();
        mon::worn::predicates(cx, &mut r);
        mon::worn::functions(cx, &mut r);
        cx.require("worn_runs", 4_000);
        let n = cx.n(20_000, 2_000_000);
        for _ in 0..8 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                arrows(cx, &mut r);
                laws(cx, &mut r);
                preds(cx, &mut r);
                if r.chance(1, 8) {
                    reenter(cx, &mut r);
                    defaults(cx, &mut r);
                }
            }
        });
    });
}
/// composites whose components run the very composite they are part of, a few levels deep
fn reenter(cx: &mut Ctx, r: &mut Rng) {
    let (f, g, x) = (Fun::gen_(r), Fun::gen_(r), r.below(5) as i64);
    fn plain(which: usize, f: Fun, g: Fun, x: i64) -> i64 {
        let step = |y: i64| if y <= 0 { f.ap(y) % 50 } else { (plain(which, f, g, y - 1) % 1000) * 3 + y };
        let pos = |y: i64| y.min(3);
        match which {
            0 => g.ap(step(step(pos(x) - 1).min(0))),
            1 => if g.pred(x) { step(x) } else { x },
            2 => {
                let y = step(x);
                if g.pred(y) { g.ap(y) } else { y }
            },
            3 => g.ap(step(x)),
            4 => step(g.ap(x).min(x - 1)),
            5 => merge((step(x - 1), step(x))),
            6 => merge((step(x), x)),
            _ => if step(x) % 2 == 0 { 1 } else { 0 },
        }
    }
    for which in 0..8 {
        let own: std::rc::Rc<std::cell::OnceCell<FM<i64, i64>>> = Default::default();
        let o = own.clone();
        let step = move |y: i64| if y <= 0 { f.ap(y) % 50 } else { (o.get().unwrap()(y - 1) % 1000) * 3 + y };
        let pair = |h: FM<(i64, i64), (i64, i64)>, k: fn(i64) -> (i64, i64)| FC::compose_morphisms(&FC::arrow(merge), &FC::compose_morphisms(&h, &FC::arrow(k)));
        let whole: FM<i64, i64> = match which {
            0 => {
                let s2 = step.clone();
                FC::sequence(vec![
                    Box::new(|y: i64| y.min(3) - 1) as Box<dyn Fn(i64) -> i64>,
                    Box::new(step),
                    Box::new(|y| y.min(0)),
                    Box::new(s2),
                    Box::new(move |y| g.ap(y)),
                ])
            },
            1 => FC::when(move |y| g.pred(*y), step),
            2 => FC::then_if(&FC::arrow(step), &FC::arrow(move |y| g.ap(y)), move |y| g.pred(*y)),
            3 => FC::compose_morphisms(&FC::arrow(move |y| g.ap(y)), &FC::arrow(step)),
            4 => pipe!(move |y: i64| g.ap(y).min(y - 1), step),
            5 => pair(FC::both(step), |y| (y - 1, y)),
            6 => pair(FC::first(&FC::lift(step)), |y| (y, y)),
            _ => {
                // a predicate that asks a composite of itself
                let p = Predicate::new(move |y: &i64| step(*y) % 2 == 0);
                let q = p.union(&Predicate::empty());
                FC::arrow(move |y| q.contains(&y) as i64)
            },
        };
        let _ = own.set(whole.clone());
        let c = || format!("composite {which} inside itself, {f:?} {g:?} at {x}");
        if let Some(got) = cx.guard("reenter", c, || whole(x)) {
            cx.eq("reenter", &got, &plain(which, f, g, x), c);
        }
    }
    cx.case("reenter", &(f, g, x), true, || format!("{f:?} {g:?} {x}"));
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let f = Fun::gen_(r);
    let n = *r.pick(&[few, n]);
    let c = || format!("{n} steps {f:?}");
    cx.case("wide", &(n, f), true, c);
    let g = move |i: usize, x: i64| f.ap2(x, i as i64);
    let want = (0..n).fold(3i64, |x, i| g(i, x));
    let steps: Vec<_> = (0..n).map(|i| move |x: i64| g(i, x)).collect();
    let all = FC::sequence(steps);
    cx.eq("wide.sequence", &(all(3), all(3)), &(want, want), c);
    let boxed: Vec<Box<dyn Fn(i64) -> i64>> = (0..n).map(|i| Box::new(move |x: i64| g(i, x)) as Box<dyn Fn(i64) -> i64>).collect();
    let all = rustica::utils::hkt_utils::compose_all::<i64, i64>(boxed);
    cx.eq("wide.compose_all", &(all(3), all(3)), &(want, want), c);
    let ps: Vec<Predicate<i64>> = (0..few as i64).map(|i| Predicate::new(move |x: &i64| *x == i * 3)).collect();
    let any = monoid::combine_all(ps);
    cx.eq("wide.predicates", &[0, 1, few as i64 * 3 - 3, few as i64 * 3].map(|x| any.contains(&x)), &[true, false, true, false], c);
}
