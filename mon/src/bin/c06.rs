use mon::views::*;
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::traits::applicative::Applicative;
use rustica::traits::hkt::HKT;
use rustica::traits::pure::Pure;

type Chain = Vec<Fun>;
fn run_chain(c: &Chain, x: i64) -> i64 {
    c.iter().rev().fold(x, |a, f| f.ap(a))
}
macro_rules! ty {
    ($cx:expr, $r:expr, $name:expr, $t:ident $(, $e:ty)?) => {{
        // containers of functions taking references, and of functions taking values
        one::<_, $t<$($e,)? _>>($cx, $r, $name, |c: Chain| move |x: &i64| run_chain(&c, *x));
        two::<_, $t<$($e,)? _>>($cx, $r, $name, |c: Chain| move |x: i64| run_chain(&c, x));
        lifts::<$t<$($e,)? i64>>($cx, $r, $name);
    }};
}
type Res<E, T> = Result<T, E>;
type Wr<T> = Writer<Vec<String>, T>;

fn main() {
    main_with("C06", |cx| {
        cx.rule = "a case is a tuple of containers plus functions; apply, pure, lift2/lift3/ap2, sequence_left/right (both forms) and the four applicative laws are compared with the reference model. \
                   Distinct by (type, containers, functions)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(40_000, 4_000_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let r = &mut r;
                ty!(cx, r, "Option", Option);
                ty!(cx, r, "Result", Res, String);
                ty!(cx, r, "Vec", Vec);
                ty!(cx, r, "Maybe", Maybe);
                ty!(cx, r, "Either", Either, String);
                ty!(cx, r, "Validated", Validated, String);
                ty!(cx, r, "Choice", Choice);
                ty!(cx, r, "Id", Id);
                ty!(cx, r, "Writer", Wr);
            }
        });
        cx.require("both_failed", 300);
        cx.require("one_failed", 1000);
        cx.require("multi", 300);
    });
}
fn gchain(r: &mut Rng) -> Chain {
    (0..1 + r.below(2)).map(|_| Fun::gen_(r)).collect()
}
/// compose u with v: outer after inner
fn comp(u: &Chain, v: &Chain) -> Chain {
    u.iter().chain(v).copied().collect()
}
fn tally<A, B>(cx: &mut Ctx, k: K, a: &M<A>, b: &M<B>)
where
    A: Clone,
    B: Clone,
{
    match (a.ok(), b.ok()) {
        (false, false) => cx.count("both_failed", 1),
        (true, true) => {},
        _ => cx.count("one_failed", 1),
    }
    if k.multi() && a.items.len() * b.items.len() > 1 {
        cx.count("multi", 1);
    }
}
fn same<T: PartialEq + Clone + std::fmt::Debug + Ord>(k: K, a: &M<T>, b: &M<T>) -> bool {
    if k == K::Choice {
        let mut x = a.items.clone();
        let mut y = b.items.clone();
        x.sort();
        y.sort();
        return x == y && a.items.first() == b.items.first();
    }
    a == b
}

macro_rules! apply_fn {
    ($name:ident, $arg:ty, $apply:ident, $own:expr) => {
        fn $name<G, S>(cx: &mut Ctx, r: &mut Rng, ty: &str, mk: impl Fn(Chain) -> G)
        where
            G: Fn($arg) -> i64 + Clone,
            S: Sub<G> + Applicative<Source = G> + Clone,
            S::Output<i64>: Sub<i64> + Clone,
            S::Output<String>: Sub<String>,
        {
            let k = <S as Sub<G>>::K;
            let u = gen_small(k, r, gchain);
            let v = gen_small(k, r, gchain);
            let w = gen_m(k, r, |r| r.small());
            let c = || format!("{ty} u={u:?} v={v:?} w={w:?}");
            tally(cx, k, &u, &w);
            let (su, sv) = (S::mk(&u.map(|c| mk(c.clone()))), S::mk(&v.map(|c| mk(c.clone()))));
            let sw = <S::Output<i64> as Sub<i64>>::mk(&w);
            let n = stringify!($apply);
            let uv = M::apply_from(&M::<Chain>::apply_from(&u.map(|c| c.clone()), k, &v, |a, b| comp(a, b)), k, &w, |f, x| run_chain(f, *x));
            let x0 = r.small();
            let app = |a: &S, b: &S::Output<i64>| -> S::Output<i64> { $own(a, b) };
            let Some((uw, vw_u, lcomp, idm, hom, inter_l, inter_r, pu)) = cx.guard(&format!("{ty}.{n}"), c, || {
                let vw = app(&sv, &sw);
                // left side of the composition law uses the composed functions
                let composed: M<Chain> = M::apply_from(&u, k, &v, |a, b| comp(a, b));
                let idm = M::one(vec![Fun(0)]);
                let mut px = M::one(x0);
                px.log = vec![];
                let pfun = M::one(u.items.first().cloned().unwrap_or_default());
                (
                    app(&su, &sw).view(),
                    app(&su, &vw).view(),
                    app(&S::mk(&composed.map(|c| mk(c.clone()))), &sw).view(),
                    app(&S::mk(&idm.map(|c| mk(c.clone()))), &sw).view(),
                    app(&S::mk(&pfun.map(|c| mk(c.clone()))), &<S as Pure>::pure(&x0)).view(),
                    app(&su, &<S as Pure>::pure(&x0)).view(),
                    u.map(|c| run_chain(c, x0)),
                    (<S as Pure>::pure(&x0).view(), <S as Pure>::pure_owned(format!("p{x0}")).view()),
                )
            }) else {
                return;
            };
            cx.eq(&format!("{ty}.{n}"), &uw, &M::apply_from(&u, k, &w, |f, x| run_chain(f, *x)), c);
            cx.eq(&format!("{ty}.{n}.composition"), &vw_u, &lcomp, c);
            cx.eq(&format!("{ty}.{n}.composition_model"), &vw_u, &uv, c);
            cx.eq(&format!("{ty}.{n}.identity"), &idm, &w, c);
            cx.eq(&format!("{ty}.{n}.homomorphism"), &hom, &M::one(run_chain(&u.items.first().cloned().unwrap_or_default(), x0)), c);
            cx.eq(&format!("{ty}.{n}.interchange"), &inter_l, &inter_r, c);
            cx.eq(&format!("{ty}.pure"), &pu, &(M::one(x0), M::one(format!("p{x0}"))), c);
            cx.case(&format!("{}.{}", ty, n), &(&u, &v, &w), true, c);
        }
    };
}
apply_fn!(one, &i64, apply, |a: &S, b: &S::Output<i64>| a.apply::<i64, i64>(b));
apply_fn!(two, i64, apply_owned, |a: &S, b: &S::Output<i64>| a.clone().apply_owned::<i64, i64>(b.clone()));

fn lifts<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + Applicative<Source = i64>,
    S::Output<i64>: Sub<i64> + Clone,
    S::Output<String>: Sub<String> + Clone + HKT,
    S::Output<bool>: Sub<bool> + Clone,
{
    let k = <S as Sub<i64>>::K;
    let a = gen_small(k, r, |r| r.small());
    let b = gen_small(k, r, |r| r.string());
    let d = gen_small(k, r, |r| r.chance(1, 2));
    let f = Fun::gen_(r);
    let c = || format!("{ty} a={a:?} b={b:?} d={d:?} f={f:?}");
    tally(cx, k, &a, &b);
    let f2 = move |x: &i64, y: &String| format!("{}:{y}", f.ap(*x));
    let f3 = move |x: &i64, y: &String, z: &bool| f.ap(*x) * 1000 + 2 * y.len() as i64 + *z as i64;
    let (sa, sb, sd) = (<S::Output<i64>>::mk(&a), <S::Output<String>>::mk(&b), <S::Output<bool>>::mk(&d));
    let m2 = a.lift2(k, &b, f2);
    let pair = a.lift2(k, &b, |x, y| (*x, y.clone()));
    let m3 = pair.lift2(k, &d, |(x, y), z| f3(x, y, z));
    let log = Log::new();
    let (l1, l2, l3, l4) = (log.clone(), log.clone(), log.clone(), log.clone());
    if let Some((r2, ra, r2o, r3, r3o)) = cx.guard(&format!("{ty}.lift"), c, || {
        (
            S::lift2(
                |x: &i64, y: &String| {
                    l1.add(*x);
                    f2(x, y)
                },
                &sa,
                &sb,
            )
            .view(),
            S::ap2(f2, &sa, &sb).view(),
            S::lift2_owned(
                |x: i64, y: String| {
                    l2.add(x);
                    f2(&x, &y)
                },
                sa.clone(),
                sb.clone(),
            )
            .view(),
            S::lift3(
                |x: &i64, y: &String, z: &bool| {
                    l3.add(*x);
                    f3(x, y, z)
                },
                &sa,
                &sb,
                &sd,
            )
            .view(),
            S::lift3_owned(
                |x: i64, y: String, z: bool| {
                    l4.add(x);
                    f3(&x, &y, &z)
                },
                sa.clone(),
                sb.clone(),
                sd.clone(),
            )
            .view(),
        )
    }) {
        cx.eq(&format!("{ty}.lift2"), &r2, &m2, c);
        cx.eq(&format!("{ty}.ap2"), &ra, &m2, c);
        cx.eq(&format!("{ty}.lift2_owned"), &r2o, &m2, c);
        cx.eq(&format!("{ty}.lift3"), &r3, &m3, c);
        cx.eq(&format!("{ty}.lift3_owned"), &r3o, &m3, c);
        let mut calls = log.take();
        calls.sort();
        let mut want: Vec<i64> = vec![];
        for x in &a.items {
            for _ in 0..2 * b.items.len() * (1 + d.items.len()) {
                want.push(*x);
            }
        }
        want.sort();
        cx.eq(&format!("{ty}.lift.calls"), &calls, &want, c);
        // step by step: map the curried function, then apply
        let step = M::apply_from(&a.map(|x| *x), k, &b, |x, y| f2(x, y));
        cx.check(&format!("{ty}.curried"), same(k, &r2, &step), || format!("{} lift2={r2:?} stepwise={step:?}", c()));
    }
    if let Some((sr, sl, sro, slo, a1, b1)) = cx.guard(&format!("{ty}.sequence"), c, || {
        (
            S::sequence_right(&sa, &sb).view(),
            S::sequence_left(&sa, &sb).view(),
            S::sequence_right_owned(sa.clone(), sb.clone()).view(),
            S::sequence_left_owned(sa.clone(), sb.clone()).view(),
            sa.view(),
            sb.view(),
        )
    }) {
        let (wr, wl) = (a.lift2(k, &b, |_, y| y.clone()), a.lift2(k, &b, |x, _| *x));
        cx.eq(&format!("{ty}.sequence_right"), &(&sr, &sro), &(&wr, &wr), c);
        cx.eq(&format!("{ty}.sequence_left"), &(&sl, &slo), &(&wl, &wl), c);
        cx.eq(&format!("{ty}.operands"), &(a1, b1), &(a.clone(), b.clone()), c);
    }
    cx.case(&format!("{ty}.lift"), &(&a, &b, &d, f), true, c);
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let (f, x) = (Fun::gen_(r), Fun::gen_(r));
    let c = || format!("{few} by 70, {f:?} {x:?}");
    cx.case("wide", &(few, f, x), true, c);
    let xs: Vec<i64> = (0..few as i64).map(|i| i ^ n as i64).collect();
    let ys: Vec<i64> = (0..70).map(|i| x.ap(i)).collect();
    let want: Vec<i64> = xs.iter().flat_map(|a| ys.iter().map(move |b| f.ap2(*a, *b))).collect();
    let three: Vec<i64> = xs.iter().flat_map(|a| ys.iter().flat_map(move |b| [1, 2].map(|d| f.ap2(f.ap2(*a, *b), d)))).collect();
    let (cx_, cy): (Choice<i64>, Choice<i64>) = (xs.iter().copied().collect(), ys.iter().copied().collect());
    let fs: Vec<_> = xs.iter().map(|a| { let a = *a; move |b: &i64| f.ap2(a, *b) }).collect();
    cx.check("wide.vec.lift2", Vec::<i64>::lift2(|a: &i64, b: &i64| f.ap2(*a, *b), &xs, &ys) == want, c);
    cx.check("wide.vec.lift2_owned", Vec::<i64>::lift2_owned(|a: i64, b: i64| f.ap2(a, b), xs.clone(), ys.clone()) == want, c);
    cx.check("wide.vec.lift3", Vec::<i64>::lift3(|a: &i64, b: &i64, d: &i64| f.ap2(f.ap2(*a, *b), *d), &xs, &ys, &vec![1, 2]) == three, c);
    cx.check("wide.vec.lift3_owned", Vec::<i64>::lift3_owned(|a: i64, b: i64, d: i64| f.ap2(f.ap2(a, b), d), xs.clone(), ys.clone(), vec![1, 2]) == three, c);
    cx.check("wide.vec.apply", Applicative::apply(&fs, &ys) == want, c);
    // a choice keeps its first result first, the others in any order
    let sorted = |v: &[i64]| { let mut t = v[1..].to_vec(); t.sort(); (v[0], t) };
    let l2 = Choice::<i64>::lift2(|a: &i64, b: &i64| f.ap2(*a, *b), &cx_, &cy).to_vec();
    cx.check("wide.choice.lift2", sorted(&l2) == sorted(&want), c);
    let l2 = Choice::<i64>::lift2_owned(|a: i64, b: i64| f.ap2(a, b), cx_.clone(), cy.clone()).to_vec();
    cx.check("wide.choice.lift2_owned", sorted(&l2) == sorted(&want), c);
    let ap = Applicative::apply(&fs.into_iter().collect::<Choice<_>>(), &cy).to_vec();
    cx.check("wide.choice.apply", sorted(&ap) == sorted(&want), c);
}
