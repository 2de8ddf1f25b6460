use mon::views::*;
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::writer::Writer;
use rustica::traits::hkt::HKT;
use rustica::traits::monad::Monad;
use rustica::traits::pure::Pure;

type Res<T> = Result<T, String>;
type Eit<T> = Either<String, T>;
type Val<T> = Validated<String, T>;
type Wr<T> = Writer<Vec<String>, T>;

fn main() {
    main_with("C07", |cx| {
        cx.rule = "a case is a container and two Kleisli functions (which may fail, return several values or log); bind/bind_owned/flat_map/join (both forms)/map_and_pure/try_bind, the three laws \
                   and the continuation call log are compared with the reference model. Distinct by (type, container, functions)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(60_000, 6_000_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let r = &mut r;
                macro_rules! ty {
                    ($name:expr, $t:ident) => {
                        laws::<$t<i64>>(cx, r, $name);
                        joins::<$t<i64>, $t<$t<i64>>>(cx, r, $name);
                        strs::<$t<String>, $t<i64>>(cx, r, $name);
                    };
                }
                ty!("Option", Option);
                ty!("Result", Res);
                ty!("Maybe", Maybe);
                ty!("Either", Eit);
                ty!("Validated", Val);
                ty!("Choice", Choice);
                ty!("Id", Id);
                ty!("Writer", Wr);
            }
        });
        cx.require("failed_input", 1000);
        cx.require("failed_continuation", 1000);
        cx.require("empty_primary", 50);
        cx.require("multi", 300);
    });
}
/// a deterministic Kleisli function: what `f` returns for `x`
fn kl(k: K, f: Fun, x: i64) -> M<i64> {
    let h = f.small(x, 7);
    let v = f.ap(x);
    let mut m = M { items: vec![v], errs: vec![], log: vec![] };
    match k {
        K::Choice => m.items = (0..[1, 1, 0, 2, 3, 1, 9][h as usize]).map(|i| v.wrapping_add(i * 1000)).collect(),
        K::Id => {},
        K::Writer => m.log = (0..h % 3).map(|i| format!("w{x}.{i}")).collect(),
        K::Opt | K::Maybe => {
            if h < 2 {
                m.items.clear()
            }
        },
        _ => {
            if h < 2 {
                m.items.clear();
                let n = if k == K::Val { 1 + f.small(x, 4) } else { 1 };
                m.errs = (0..n).map(|i| format!("k{x}.{i}")).collect();
            }
        },
    }
    m
}
fn laws<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + Monad + HKT<Source = i64, Output<i64> = S> + Clone + Pure,
{
    let k = S::K;
    let m = gen_m(k, r, |r| r.small());
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    let a = r.small();
    let dflt = r.small();
    let c = || format!("{ty} m={m:?} f={f:?} g={g:?} a={a}");
    let s = S::mk(&m);
    let log = Log::new();
    let kf = |x: &i64| -> S {
        log.add(*x);
        S::mk(&kl(k, f, *x))
    };
    let kfo = |x: i64| -> S {
        log.add(x);
        S::mk(&kl(k, f, x))
    };
    let pure_g = |x: &i64| S::mk(&kl(k, g, *x));
    let want = m.bind(k, |x| kl(k, f, *x));
    let want2 = want.bind(k, |x| kl(k, g, *x));
    if !m.ok() {
        cx.count("failed_input", 1);
    } else if !want.ok() {
        cx.count("failed_continuation", 1);
    }
    if k == K::Choice && want.items.len() > 1 {
        cx.count("multi", 1);
        if kl(k, f, m.items[0]).items.is_empty() {
            cx.count("empty_primary", 1);
        }
    }
    let calls_ok = |cx: &mut Ctx, what: &str, log: &Log<i64>| {
        let got = log.take();
        cx.eq(&format!("{ty}.{what}.calls"), &got, &m.items, || format!("{} (each value once, in order; none when empty)", c()));
    };
    if let Some(v) = cx.guard(&format!("{ty}.bind"), c, || s.bind::<i64, _>(kf).view()) {
        cx.eq(&format!("{ty}.bind"), &v, &want, c);
        calls_ok(cx, "bind", &log);
    }
    if let Some(v) = cx.guard(&format!("{ty}.bind_owned"), c, || s.clone().bind_owned::<i64, _>(kfo).view()) {
        cx.eq(&format!("{ty}.bind_owned"), &v, &want, c);
        calls_ok(cx, "bind_owned", &log);
    }
    if let Some(v) = cx.guard(&format!("{ty}.flat_map"), c, || s.flat_map::<i64, _>(kf).view()) {
        cx.eq(&format!("{ty}.flat_map"), &v, &want, c);
        calls_ok(cx, "flat_map", &log);
    }
    if let Some(v) = cx.guard(&format!("{ty}.flat_map_owned"), c, || s.clone().flat_map_owned::<i64, _>(kfo).view()) {
        cx.eq(&format!("{ty}.flat_map_owned"), &v, &want, c);
        calls_ok(cx, "flat_map_owned", &log);
    }
    if let Some((mp, tb)) = cx.guard(&format!("{ty}.map_and_pure"), c, || {
        (
            s.map_and_pure::<i64, _>(|x| f.ap(*x)).view(),
            s.try_bind::<i64, i64, _>(&dflt, |x| if g.pred(*x) { Ok(S::mk(&kl(k, f, *x))) } else { Err(1) }).view(),
        )
    }) {
        cx.eq(&format!("{ty}.map_and_pure"), &mp, &m.map(|x| f.ap(*x)), c);
        let w = m.bind(k, |x| if g.pred(*x) { kl(k, f, *x) } else { M::one(dflt) });
        cx.eq(&format!("{ty}.try_bind"), &tb, &w, c);
    }
    // laws on the library's own results
    if let Some((left, right, nest, chain, nest_o, chain_o, after)) = cx.guard(&format!("{ty}.laws"), c, || {
        let pg = &pure_g;
        (
            <S as Pure>::pure(&a).bind::<i64, _>(pg).view(),
            s.bind::<i64, _>(|x| <S as Pure>::pure(x)).view(),
            s.bind::<i64, _>(|x| S::mk(&kl(k, f, *x)).bind::<i64, _>(pg)).view(),
            s.bind::<i64, _>(|x| S::mk(&kl(k, f, *x))).bind::<i64, _>(pg).view(),
            s.clone().bind_owned::<i64, _>(|x| S::mk(&kl(k, f, x)).bind_owned::<i64, _>(|y| pg(&y))).view(),
            s.clone().bind_owned::<i64, _>(|x| S::mk(&kl(k, f, x))).bind_owned::<i64, _>(|y| pg(&y)).view(),
            s.view(),
        )
    }) {
        cx.eq(&format!("{ty}.left_identity"), &left, &kl(k, g, a), c);
        cx.eq(&format!("{ty}.right_identity"), &right, &m, c);
        cx.eq(&format!("{ty}.assoc"), &(&nest, &chain), &(&want2, &want2), c);
        cx.eq(&format!("{ty}.assoc_owned"), &(&nest_o, &chain_o), &(&want2, &want2), c);
        cx.eq(&format!("{ty}.operand"), &after, &m, c);
    }
    cx.case(ty, &(&m, f, g), true, c);
}
fn joins<S, N>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + Clone,
    N: Sub<S> + Monad + HKT<Source = S, Output<i64> = S> + Clone,
{
    let k = N::K;
    let m: M<M<i64>> = gen_small(k, r, |r| gen_m(k, r, |r| r.small()));
    let c = || format!("{ty} m={m:?}");
    let n = N::mk(&m.map(|x| S::mk(x)));
    let want = m.bind(k, |x| x.clone());
    if let Some((j, jo, b)) = cx.guard(&format!("{ty}.join"), c, || {
        (n.join::<i64>().view(), n.clone().join_owned::<i64>().view(), n.bind::<i64, _>(|x| x.clone()).view())
    }) {
        cx.eq(&format!("{ty}.join"), &j, &want, c);
        cx.eq(&format!("{ty}.join_owned"), &jo, &want, c);
        cx.eq(&format!("{ty}.join_bind"), &b, &want, c);
    }
    cx.case(&format!("{ty}.join"), &m, true, c);
}
/// binding across element types
fn strs<S, I>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<String> + Monad + HKT<Source = String, Output<i64> = I> + Clone,
    I: Sub<i64>,
{
    let k = S::K;
    let m = gen_m(k, r, |r| r.string());
    let f = Fun::gen_(r);
    let c = || format!("{ty} m={m:?} f={f:?}");
    let s = S::mk(&m);
    let want = m.bind(k, |x| kl(k, f, x.len() as i64));
    if let Some((a, b)) = cx.guard(&format!("{ty}.bind_str"), c, || {
        (
            s.bind::<i64, _>(|x| I::mk(&kl(k, f, x.len() as i64))).view(),
            s.clone().bind_owned::<i64, _>(|x| I::mk(&kl(k, f, x.len() as i64))).view(),
        )
    }) {
        cx.eq(&format!("{ty}.bind_str"), &a, &want, c);
        cx.eq(&format!("{ty}.bind_owned_str"), &b, &want, c);
    }
    cx.case(&format!("{ty}.str"), &(&m, f), true, c);
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let f = Fun::gen_(r);
    let c = || format!("{few} and {n} values {f:?}");
    cx.case("wide", &(few, n, f), true, c);
    let xs: Vec<i64> = (0..n as i64).collect();
    let ch: Choice<i64> = xs.iter().copied().collect();
    let sorted = |v: Vec<i64>| { let mut v = v; v.sort(); v };
    let k = |x: i64| Choice::new(f.ap(x), (0..x % 3).map(|i| x + i));
    let want: Vec<i64> = sorted(xs.iter().flat_map(|x| k(*x).to_vec()).collect());
    let (a, b) = (ch.bind(|x| k(*x)), ch.clone().bind_owned(k));
    cx.check("wide.choice.bind", a.first() == Some(&f.ap(0)) && sorted(a.to_vec()) == want, c);
    cx.check("wide.choice.bind_owned", b.first() == Some(&f.ap(0)) && sorted(b.to_vec()) == want, c);
    let few = *r.pick(&[few, n]);
    let nested: Choice<Choice<i64>> = xs[..few].iter().map(|x| k(*x)).collect();
    let flat: Vec<i64> = sorted(xs[..few].iter().flat_map(|x| k(*x).to_vec()).collect());
    cx.check("wide.choice.join", sorted(nested.join().to_vec()) == flat && sorted(nested.join_owned().to_vec()) == flat, c);
}
