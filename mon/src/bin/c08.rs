//! C08: consuming and borrowing forms of the same operation agree, and borrowing leaves operands alone.
#![allow(deprecated)]
use futures::executor::block_on;
use mon::views::*;
use mon::*;
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::applicative::Applicative;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::functor::Functor;
use rustica::traits::hkt::{BinaryHKT, HKT};
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::natural_transformation::{NaturalTransformation, identity_nat};
use rustica::traits::pure::{Pure, PureExt, PureType};
use rustica::traits::semigroup::{Semigroup, SemigroupExt};
use rustica::utils::transform_utils::Pipeline;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;

type Res<T> = Result<T, String>;
type Eit<T> = Either<String, T>;
type Val<T> = Validated<String, T>;
type Wr<T> = Writer<Vec<String>, T>;

/// runs both forms; both must give the same value or both must panic
fn both<T: PartialEq + Debug>(cx: &mut Ctx, sig: &str, ctx: &dyn Fn() -> String, borrowed: impl FnOnce() -> T, owned: impl FnOnce() -> T) {
    let (b, o) = (quiet(borrowed), quiet(owned));
    cx.count(&format!("pair.{sig}"), 1);
    match (b, o) {
        (Ok(b), Ok(o)) => cx.check(sig, b == o, || format!("{}\n  borrowed: {b:?}\n  owned:    {o:?}", ctx())),
        (Err(_), Err(_)) => cx.count("both_panic", 1),
        (b, o) => cx.check(sig, false, || format!("{}\n  borrowed: {:?}\n  owned:    {:?}", ctx(), b.map_err(|p| p.msg), o.map_err(|p| p.msg))),
    }
}
fn kl(k: K, f: Fun, x: i64) -> M<i64> {
    let h = f.small(x, 6);
    let v = f.ap(x);
    let mut m = M { items: vec![v], errs: vec![], log: vec![] };
    match k {
        K::Choice => m.items = (0..[1, 0, 2, 3, 1, 9][h as usize]).map(|i| v.wrapping_add(i * 1000)).collect(),
        K::Id => {},
        K::Writer => m.log = (0..h % 3).map(|i| format!("w{x}.{i}")).collect(),
        _ if h < 2 => {
            m.items.clear();
            if k.has_err() {
                m.errs = (0..if k == K::Val { 1 + h } else { 1 }).map(|i| format!("k{x}.{i}")).collect();
            }
        },
        _ => {},
    }
    m
}
fn functor<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + Functor + HKT<Source = i64, Output<i64> = S> + Clone,
    S::Output<String>: Sub<String>,
    S::Output<()>: Sub<()>,
{
    let m = gen_m(S::K, r, |r| r.small());
    let f = Fun::gen_(r);
    let s = S::mk(&m);
    let y = r.small();
    let ctx = &|| format!("{ty} {m:?} f={f:?} y={y}");
    both(cx, &format!("{ty}.fmap"), ctx, || s.fmap(|x| f.ap(*x)).view(), || s.clone().fmap_owned(|x| f.ap(x)).view());
    both(cx, &format!("{ty}.fmap_str"), ctx, || s.fmap(|x| format!("{}", f.ap(*x))).view(), || s.clone().fmap_owned(|x| format!("{}", f.ap(x))).view());
    both(cx, &format!("{ty}.replace"), ctx, || s.replace(&y).view(), || s.replace_owned(y).view());
    both(cx, &format!("{ty}.void"), ctx, || s.void().view(), || s.clone().void_owned().view());
    both(
        cx,
        &format!("{ty}.pipeline_map"),
        ctx,
        || Pipeline::new(s.clone()).map(|x| f.ap(*x)).extract().view(),
        || Pipeline::new(s.clone()).map_owned(|x| f.ap(x)).extract().view(),
    );
    cx.eq(&format!("{ty}.operand"), &s.view(), &m, ctx);
    cx.case(ty, &(&m, f, y), true, ctx);
}
fn strings<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<String> + Functor + HKT<Source = String> + Clone,
    S::Output<i64>: Sub<i64>,
{
    let m = gen_m(S::K, r, |r| r.string());
    let s = S::mk(&m);
    let ctx = &|| format!("{ty}<String> {m:?}");
    both(cx, &format!("{ty}.fmap_from_str"), ctx, || s.fmap(|x| x.len() as i64).view(), || s.clone().fmap_owned(|x| x.len() as i64).view());
    cx.eq(&format!("{ty}.operand_str"), &s.view(), &m, ctx);
}
fn pure<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Pure,
    S::Output<String>: Sub<String> + PartialEq + Debug,
{
    let x = r.string();
    let ctx = &|| format!("{ty} {x:?}");
    both(cx, &format!("{ty}.pure"), ctx, || S::pure(&x), || S::pure_owned(x.clone()));
    both(cx, &format!("{ty}.to_pure"), ctx, || x.to_pure::<S>(), || x.clone().to_pure_owned::<S>());
    both(cx, &format!("{ty}.pure_type"), ctx, || PureType::<S, String>::lift(&x), || PureType::<S, String>::lift_owned(x.clone()));
    both(cx, &format!("{ty}.pure_vs_ext"), ctx, || S::pure(&x), || x.clone().to_pure_owned::<S>());
}
fn applicative<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + Applicative + HKT<Source = i64, Output<i64> = S> + Clone,
    S::Output<String>: Sub<String> + Clone,
{
    let k = S::K;
    let (a, b, c) = (gen_small(k, r, |r| r.small()), gen_small(k, r, |r| r.string()), gen_small(k, r, |r| r.small()));
    let f = Fun::gen_(r);
    let (sa, sb, sc) = (S::mk(&a), <S::Output<String>>::mk(&b), S::mk(&c));
    let ctx = &|| format!("{ty} a={a:?} b={b:?} c={c:?} f={f:?}");
    let g2 = |x: i64, y: &str| format!("{}|{y}", f.ap(x));
    let g3 = |x: i64, y: &str, z: i64| format!("{}|{y}|{}", f.ap(x), f.ap(z));
    both(cx, &format!("{ty}.lift2"), ctx, || <S::Output<String> as Sub<String>>::view(&S::lift2(|x: &i64, y: &String| g2(*x, y), &sa, &sb)), || S::lift2_owned(|x: i64, y: String| g2(x, &y), sa.clone(), sb.clone()).view());
    both(
        cx,
        &format!("{ty}.lift3"),
        ctx,
        || S::lift3(|x: &i64, y: &String, z: &i64| g3(*x, y, *z), &sa, &sb, &sc).view(),
        || S::lift3_owned(|x: i64, y: String, z: i64| g3(x, &y, z), sa.clone(), sb.clone(), sc.clone()).view(),
    );
    both(cx, &format!("{ty}.sequence_left"), ctx, || <S as Sub<i64>>::view(&S::sequence_left::<i64, String>(&sa, &sb)), || <S as Sub<i64>>::view(&S::sequence_left_owned::<i64, String>(sa.clone(), sb.clone())));
    both(cx, &format!("{ty}.sequence_right"), ctx, || <S::Output<String> as Sub<String>>::view(&S::sequence_right::<i64, String>(&sa, &sb)), || <S::Output<String> as Sub<String>>::view(&S::sequence_right_owned::<i64, String>(sa.clone(), sb.clone())));
    cx.eq(&format!("{ty}.lift.operands"), &(sa.view(), sb.view(), sc.view()), &(a.clone(), b.clone(), c.clone()), ctx);
    cx.case(&format!("{ty}.lift"), &(&a, &b, &c, f), true, ctx);
}
macro_rules! apply_pair {
    ($cx:expr, $r:expr, $ty:expr, $t:ident) => {{
        let k = <$t<i64> as Sub<i64>>::K;
        let (u, w) = (gen_small(k, $r, |r| Fun::gen_(r)), gen_small(k, $r, |r| r.string()));
        let ctx = &|| format!("{} u={u:?} w={w:?}", $ty);
        let rb = $t::mk(&u.map(|f| {
            let f = *f;
            move |x: &String| f.ap(x.len() as i64)
        }));
        let ow = $t::mk(&u.map(|f| {
            let f = *f;
            move |x: String| f.ap(x.len() as i64)
        }));
        let sw = <$t<String>>::mk(&w);
        both($cx, &format!("{}.apply", $ty), ctx, || -> M<i64> { Sub::<i64>::view(&rb.apply::<String, i64>(&sw)) }, || Sub::<i64>::view(&ow.apply_owned::<String, i64>(sw.clone())));
        $cx.eq(&format!("{}.apply.operand", $ty), &sw.view(), &w, ctx);
        $cx.case(&format!("{}.apply", $ty), &(&u, &w), true, ctx);
    }};
}
fn monad<S, N>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + Monad + HKT<Source = i64, Output<i64> = S> + Clone,
    N: Sub<S> + Monad + HKT<Source = S, Output<i64> = S> + Clone,
{
    let k = S::K;
    let m = gen_m(k, r, |r| r.small());
    let f = Fun::gen_(r);
    let s = S::mk(&m);
    let ctx = &|| format!("{ty} {m:?} f={f:?}");
    both(cx, &format!("{ty}.bind"), ctx, || s.bind::<i64, _>(|x| S::mk(&kl(k, f, *x))).view(), || s.clone().bind_owned::<i64, _>(|x| S::mk(&kl(k, f, x))).view());
    both(cx, &format!("{ty}.flat_map"), ctx, || s.flat_map::<i64, _>(|x| S::mk(&kl(k, f, *x))).view(), || s.clone().flat_map_owned::<i64, _>(|x| S::mk(&kl(k, f, x))).view());
    cx.eq(&format!("{ty}.bind.operand"), &s.view(), &m, ctx);
    let mm: M<M<i64>> = gen_small(N::K, r, |r| gen_m(k, r, |r| r.small()));
    let n = N::mk(&mm.map(|x| S::mk(x)));
    let ctx = &|| format!("{ty} {mm:?}");
    both(cx, &format!("{ty}.join"), ctx, || n.join::<i64>().view(), || n.clone().join_owned::<i64>().view());
    cx.eq(&format!("{ty}.join.operand"), &n.view().map(|x| x.view()), &mm, ctx);
    cx.case(&format!("{ty}.monad"), &(&m, &mm, f), true, ctx);
}
fn plus<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + MonadPlus + Clone,
{
    let (a, b) = (gen_m(S::K, r, |r| r.small()), gen_m(S::K, r, |r| r.small()));
    let (x, y) = (S::mk(&a), S::mk(&b));
    let ctx = &|| format!("{ty} {a:?} {b:?}");
    both(cx, &format!("{ty}.mplus"), ctx, || x.mplus(&y).view(), || x.clone().mplus_owned(y.clone()).view());
    cx.eq(&format!("{ty}.mplus.operands"), &(x.view(), y.view()), &(a.clone(), b.clone()), ctx);
    if !a.ok() && !b.ok() {
        cx.count("both_failed", 1);
    }
    cx.case(&format!("{ty}.mplus"), &(&a, &b), true, ctx);
}
fn identity<T, S>(cx: &mut Ctx, r: &mut Rng, ty: &str, g: impl FnMut(&mut Rng) -> T)
where
    T: Clone + PartialEq + Debug,
    S: Sub<T> + Identity + HKT<Source = T> + Clone,
{
    let m = gen_m(S::K, r, g);
    let s = S::mk(&m);
    let ctx = &|| format!("{ty} {m:?}");
    both(cx, &format!("{ty}.value"), ctx, || s.value().clone(), || s.clone().into_value());
    both(cx, &format!("{ty}.try_value"), ctx, || s.try_value().cloned(), || s.clone().try_into_value());
    cx.eq(&format!("{ty}.value.operand"), &s.view(), &m, ctx);
}
fn semi<T, V>(cx: &mut Ctx, r: &mut Rng, ty: &str, g: impl Fn(&mut Rng) -> T, view: impl Fn(&T) -> V)
where
    T: Semigroup + Clone,
    V: PartialEq + Debug,
{
    let (x, y) = (g(r), g(r));
    let n = if r.chance(1, 20) { r.below(40) } else { r.below(6) };
    let xs: Vec<T> = (0..1 + some_len(r, 5).min(40)).map(|_| g(r)).collect();
    let (vx, vy) = (view(&x), view(&y));
    let vs: Vec<V> = xs.iter().map(&view).collect();
    let ctx = &|| format!("{ty} {vx:?} {vy:?} n={n} {vs:?}");
    both(cx, &format!("{ty}.combine"), ctx, || view(&x.combine(&y)), || view(&x.clone().combine_owned(y.clone())));
    both(cx, &format!("{ty}.combine_n"), ctx, || view(&x.combine_n(&n)), || view(&x.clone().combine_n_owned(n)));
    both(
        cx,
        &format!("{ty}.fold"),
        ctx,
        || view(&xs[1..].iter().fold(xs[0].clone(), |a, b| a.combine(b))),
        || view(&T::combine_all_owned(xs.clone())),
    );
    cx.eq(&format!("{ty}.combine.operands"), &(view(&x), view(&y)), &(vx, vy), || ty.to_string());
    cx.case(&format!("{ty}.combine"), &format!("{:?}{:?}{n}", view(&x), view(&y)), true, || ty.to_string());
}
/// equal and ordered by key only; the tag tells which of two equal values was kept
#[derive(Clone, Debug, Default)]
struct Tag {
    key: i64,
    tag: u64,
}
impl PartialEq for Tag {
    fn eq(&self, o: &Tag) -> bool {
        self.key == o.key
    }
}
impl Eq for Tag {}
impl std::hash::Hash for Tag {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.key.hash(h)
    }
}
impl PartialOrd for Tag {
    fn partial_cmp(&self, o: &Tag) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tag {
    fn cmp(&self, o: &Tag) -> Ordering {
        self.key.cmp(&o.key)
    }
}
fn tag(r: &mut Rng) -> Tag {
    let keys = if r.chance(1, 3) { 60 } else { 2 };
    Tag { key: r.range(0, keys), tag: r.u64() }
}
fn semigroups(cx: &mut Ctx, r: &mut Rng) {
    let s = |r: &mut Rng| r.string();
    let v = |r: &mut Rng| {
        let n = some_len(r, 9).min(120);
        (0..n).map(|_| r.small()).collect::<Vec<i64>>()
    };
    let many = if r.chance(1, 10) { 60 } else { 5 };
    // of two equal elements, the same one must be kept by both forms
    semi(cx, r, "HashSetTag", |r| (0..r.len_tail(5)).map(|_| tag(r)).collect::<HashSet<_>>(), |x| x.iter().map(|t| (t.key, t.tag)).collect::<BTreeSet<_>>());
    semi(cx, r, "BTreeSetTag", |r| (0..r.len_tail(5)).map(|_| tag(r)).collect::<BTreeSet<_>>(), |x| x.iter().map(|t| (t.key, t.tag)).collect::<Vec<_>>());
    semi(cx, r, "HashMapTag", |r| (0..r.len_tail(5)).map(|_| (tag(r), s(r))).collect::<HashMap<_, _>>(), |x| x.iter().map(|(t, v)| (t.key, t.tag, v.clone())).collect::<BTreeSet<_>>());
    semi(cx, r, "BTreeMapTag", |r| (0..r.len_tail(5)).map(|_| (tag(r), s(r))).collect::<BTreeMap<_, _>>(), |x| x.iter().map(|(t, v)| (t.key, t.tag, v.clone())).collect::<Vec<_>>());
    semi(cx, r, "String", s, |x| x.clone());
    semi(cx, r, "Vec", v, |x| x.clone());
    semi(cx, r, "Option", |r| r.chance(2, 3).then(|| s(r)), |x| x.clone());
    semi(cx, r, "HashMap", |r| v(r).into_iter().map(|k| (k % many, s(r))).collect::<HashMap<_, _>>(), |x| x.iter().map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>());
    semi(cx, r, "BTreeMap", |r| v(r).into_iter().map(|k| (k % many, s(r))).collect::<BTreeMap<_, _>>(), |x| x.clone());
    semi(cx, r, "HashSet", |r| v(r).into_iter().collect::<HashSet<_>>(), |x| x.iter().copied().collect::<BTreeSet<_>>());
    semi(cx, r, "BTreeSet", |r| v(r).into_iter().collect::<BTreeSet<_>>(), |x| x.clone());
    semi(cx, r, "Tuple2", |r| (s(r), v(r)), |x| x.clone());
    semi(cx, r, "Tuple3", |r| (s(r), v(r), Sum(r.small())), |x| x.clone());
    semi(cx, r, "Tuple4", |r| (s(r), v(r), Max(r.small()), First(r.chance(1, 2).then_some(1))), |x| x.clone());
    semi(cx, r, "PVec", |r| (0..r.len_upto(90)).map(|_| r.small()).collect::<PersistentVector<i64>>(), |x| x.to_vec());
    semi(cx, r, "Choice", |r| v(r).into_iter().collect::<Choice<i64>>(), |x| x.iter().copied().collect::<Vec<_>>());
    semi(cx, r, "Validated", |r| Val::<i64>::mk(&gen_m(K::Val, r, |r| r.small())), |x| x.view());
    semi(cx, r, "Id", |r| Id::new(s(r)), |x| x.clone().unwrap());
    semi(cx, r, "Writer", |r| Writer::new(v(r), s(r)), |x| x.clone().run());
    semi(cx, r, "Min", |r| Min(tag(r)), |x| (x.0.key, x.0.tag));
    semi(cx, r, "Max", |r| Max(tag(r)), |x| (x.0.key, x.0.tag));
    semi(cx, r, "Sum", |r| Sum(r.small()), |x| x.0);
    semi(cx, r, "Product", |r| Product(r.range(-3, 3)), |x| x.0);
    semi(cx, r, "First", |r| First(r.chance(2, 3).then(|| s(r))), |x| x.0.clone());
    semi(cx, r, "Last", |r| Last(r.chance(2, 3).then(|| s(r))), |x| x.0.clone());
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    let mk = |f: Fun| Predicate::new(move |x: &i64| f.pred(*x));
    let pts: Vec<i64> = (0..12).map(|_| r.small()).collect();
    both(
        cx,
        "Predicate.combine",
        &|| format!("{f:?} {g:?}"),
        || pts.iter().map(|x| mk(f).combine(&mk(g)).contains(x)).collect::<Vec<_>>(),
        || pts.iter().map(|x| mk(f).combine_owned(mk(g)).contains(x)).collect::<Vec<_>>(),
    );
}
fn errors(cx: &mut Ctx, r: &mut Rng) {
    let x: Res<i64> = if r.chance(1, 2) { Ok(r.small()) } else { Err(estr(r)) };
    let f = Fun::gen_(r);
    let ctx = &|| format!("{x:?} {f:?}");
    let h = |e: &str| if f.pred(e.len() as i64) { Ok(e.len() as i64) } else { Err(format!("{e}!")) };
    both(cx, "Result.catch", ctx, || x.catch(|e: &String| h(e)), || x.clone().catch_owned(|e: String| h(&e)));
    both(cx, "Result.map_error_to", ctx, || x.map_error_to(|e: &String| e.len()), || x.clone().map_error_to_owned(|e: String| e.len()));
    let o = x.clone().ok();
    let d = f.pred(3).then_some(7i64);
    both(cx, "Option.catch", ctx, || o.catch(|_: &()| d), || o.catch_owned(|_: ()| d));
    both(cx, "Option.map_error_to", ctx, || o.map_error_to(|_: &()| 4), || o.map_error_to_owned(|_: ()| 4));
    let e: Eit<i64> = match &x {
        Ok(v) => Either::Right(*v),
        Err(e) => Either::Left(e.clone()),
    };
    both(cx, "Either.map_second", ctx, || e.map_second(|l: &String| l.len()), || e.clone().map_second_owned(|l: String| l.len()));
}
fn validated(cx: &mut Ctx, r: &mut Rng) {
    let gv = |r: &mut Rng| gen_m(K::Val, r, |r| r.small());
    let (a, b) = (gv(r), gv(r));
    let f = Fun::gen_(r);
    let (x, y) = (Val::<i64>::mk(&a), Val::<i64>::mk(&b));
    let ctx = &|| format!("{a:?} {b:?} {f:?}");
    let fl = |e: &str| e.len() as i64 + f.ap(1);
    let es = |v: &Validated<i64, i64>| (v.as_ref().copied(), v.errors());
    both(cx, "Validated.map_second", ctx, || es(&x.map_second(|e: &String| fl(e))), || es(&x.clone().map_second_owned(|e: String| fl(&e))));
    both(cx, "Validated.fmap_invalid", ctx, || es(&x.fmap_invalid(|e: &String| fl(e))), || es(&x.clone().fmap_invalid_owned(|e: String| fl(&e))));
    both(cx, "Validated.combine_errors", ctx, || x.combine_errors(&y).view(), || x.clone().combine_errors_owned(y.clone()).view());
    both(cx, "Validated.unwrap", ctx, || x.unwrap(), || x.clone().unwrap_owned());
    both(cx, "Validated.unwrap_invalid", ctx, || x.unwrap_invalid(), || x.clone().unwrap_invalid_owned().to_vec());
    both(cx, "Validated.to_result", ctx, || Validated::to_result(&x), || x.clone().to_result_owned());
    both(cx, "Validated.into_value", ctx, || x.as_ref().copied().ok_or_else(|| x.errors()), || x.clone().into_value().map_err(|e| e.to_vec()));
    both(cx, "Validated.error_payload", ctx, || x.error_payload().map(|e| e.to_vec()), || x.clone().into_error_payload().ok().map(|e| e.to_vec()));
    both(cx, "Validated.iter", ctx, || (&x).into_iter().copied().collect::<Vec<_>>(), || x.clone().into_iter().collect::<Vec<_>>());
    let o = r.chance(1, 2).then(|| r.small());
    let e = estr(r);
    both(cx, "Validated.from_option", ctx, || Val::from_option(&o, &e).view(), || Val::from_option_owned(o, e.clone()).view());
    both(cx, "Validated.from_option_with", ctx, || Val::from_option_with(&o, &|| e.clone()).view(), || Val::from_option_with_owned(o, || e.clone()).view());
    let res = o.ok_or(e.clone());
    both(cx, "Validated.from_result", ctx, || Val::from_result(&res).view(), || Val::from_result_owned(res.clone()).view());
    let ms: Vec<M<i64>> = (0..r.len_tail(6)).map(|_| if r.chance(1, 2) { M::one(r.small()) } else { gv(r) }).collect();
    let vs: Vec<Val<i64>> = ms.iter().map(Val::mk).collect();
    let refs: Vec<&Val<i64>> = vs.iter().collect();
    let ctx = &|| format!("{ms:?}");
    both(cx, "Validated.sequence", ctx, || Validated::sequence(&refs, &|xs: &[i64]| xs.to_vec()).view(), || Validated::sequence_owned(vs.clone(), |xs: Vec<i64>| xs).view());
    both(cx, "Validated.collect", ctx, || Val::collect::<_, Vec<i64>>(vs.iter().cloned()).view(), || Val::collect_owned::<_, Vec<i64>>(vs.iter().cloned()).view());
    cx.eq("Validated.operands", &(x.view(), y.view()), &(a.clone(), b.clone()), ctx);
    cx.case("Validated.own", &(&a, &b, &ms, f), true, ctx);
}
fn others(cx: &mut Ctx, r: &mut Rng) {
    // iteration by reference and by value
    let x = r.chance(1, 2).then(|| r.string());
    let m = Maybe::mk(&M::items(x.iter().cloned().collect()));
    let ctx = &|| format!("{x:?}");
    both(cx, "Maybe.iter", ctx, || (&m).into_iter().cloned().collect::<Vec<_>>(), || m.clone().into_iter().collect::<Vec<_>>());
    both(cx, "Maybe.as_ref", ctx, || m.as_ref().cloned(), || m.clone().to_option());
    let e: Eit<String> = match &x {
        Some(s) => Either::Right(s.clone()),
        None => Either::Left("l".into()),
    };
    both(cx, "Either.iter", ctx, || (&e).into_iter().cloned().collect::<Vec<_>>(), || e.clone().into_iter().collect::<Vec<_>>());
    both(cx, "Either.right", ctx, || e.right_ref().clone(), || e.clone().unwrap_right());
    both(cx, "Either.left", ctx, || e.left_ref().clone(), || e.clone().unwrap_left());
    let i = Id::new(r.string());
    both(cx, "Id.as_ref", ctx, || i.as_ref().clone(), || i.clone().into_inner());
    both(cx, "Id.iter", ctx, || (&i).into_iter().cloned().collect::<Vec<_>>(), || i.clone().into_iter().collect::<Vec<_>>());
    both(cx, "Id.from", ctx, || Id::from_ref(i.as_ref()), || Id::new(i.clone().unwrap()));
    let cs = r.vec_tail(12);
    let c: Choice<i64> = cs.iter().copied().collect();
    let ctx = &|| format!("{cs:?}");
    both(cx, "Choice.iter", ctx, || (&c).into_iter().copied().collect::<Vec<_>>(), || c.clone().into_iter().collect::<Vec<_>>());
    let p: PersistentVector<i64> = cs.iter().cycle().take(cs.len() * 9).copied().collect();
    both(cx, "PVec.iter", ctx, || (&p).into_iter().copied().collect::<Vec<_>>(), || p.clone().into_iter().collect::<Vec<_>>());
    // natural transformation: default owned form
    struct First1;
    impl NaturalTransformation<Vec<()>, Option<()>> for First1 {
        fn transform<A: Clone>(&self, fa: &Vec<A>) -> Option<A> {
            fa.first().cloned()
        }
    }
    both(cx, "natural.transform", ctx, || First1.transform(&cs), || First1.transform_owned(cs.clone()));
    let idn = identity_nat::<Vec<()>>();
    both(cx, "natural.identity", ctx, || idn.transform(&cs), || idn.transform_owned(cs.clone()));
    // lazily evaluated values
    let (v, f, g) = (r.small(), Fun::gen_(r), Fun::gen_(r));
    let ctx = &|| format!("{v} {f:?} {g:?}");
    macro_rules! ev {
        ($nm:literal, $mk:expr) => {{
            let t = $mk(v);
            let u = $mk(v ^ 9);
            both(cx, concat!($nm, ".evaluate"), ctx, || t.evaluate(), || t.clone().evaluate_owned());
            both(cx, concat!($nm, ".fmap_evaluate"), ctx, || t.fmap_evaluate(|x| f.ap(x)), || t.clone().fmap_evaluate_owned(|x| f.ap(x)));
            both(cx, concat!($nm, ".map_evaluate"), ctx, || t.map_evaluate(|x| f.ap(x)), || t.clone().map_evaluate_owned(|x| f.ap(x)));
            both(cx, concat!($nm, ".bind_evaluate"), ctx, || t.bind_evaluate(|x| $mk(f.ap(x))), || t.clone().bind_evaluate_owned(|x| $mk(f.ap(x))));
            both(cx, concat!($nm, ".and_then_evaluate"), ctx, || t.and_then_evaluate(|x| $mk(f.ap(x))), || t.clone().and_then_evaluate_owned(|x| $mk(f.ap(x))));
            both(cx, concat!($nm, ".combine_evaluate"), ctx, || t.combine_evaluate(&u, |x, y| f.ap2(x, y)), || t.clone().combine_evaluate_owned(u.clone(), |x, y| f.ap2(x, y)));
            both(cx, concat!($nm, ".filter_evaluate"), ctx, || t.filter_evaluate(|x| f.pred(*x)), || t.clone().filter_evaluate_owned(|x| f.pred(*x)));
        }};
    }
    ev!("Thunk", |v: i64| Thunk::new(move || v));
    ev!("IO", |v: i64| IO::new(move || v));
    // asynchronous computations
    let a: AsyncM<i64> = match r.below(3) {
        0 => AsyncM::pure(v),
        1 => AsyncM::new(move || async move { v }),
        _ => AsyncM::pure(v).fmap(move |x| async move { f.ap(x) }),
    };
    let k = move |x: i64| async move { if f.pred(x) { AsyncM::pure(g.ap(x)) } else { AsyncM::new(move || async move { g.ap(x).wrapping_add(1) }) } };
    both(cx, "AsyncM.fmap", ctx, || block_on(a.fmap(move |x| async move { g.ap(x) }).try_get()), || block_on(a.clone().fmap_owned(move |x| async move { g.ap(x) }).try_get()));
    both(cx, "AsyncM.bind", ctx, || block_on(a.bind(k).try_get()), || block_on(a.clone().bind_owned(k).try_get()));
    let gf = move |x: i64| g.ap(x);
    let mf = || if f.pred(5) { AsyncM::pure(gf) } else { AsyncM::new(move || async move { gf }) };
    both(cx, "AsyncM.apply", ctx, || block_on(a.apply(mf()).try_get()), || block_on(a.clone().apply_owned(mf()).try_get()));
    cx.case("others", &(x, cs, v, f, g), true, ctx);
}
fn main() {
    main_with("C08", |cx| {
        cx.rule = "the borrowing and the consuming form of one operation run on equal operands: equal results (or both panic), and the borrowed operands read the same afterwards".into();
        mon::shapes::rounds(cx);
        cx.require("both_failed", 300);
        cx.require("both_panic", 300);
        let n = cx.n(24_000, 2_400_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let r = &mut r;
                macro_rules! functors {
                    ($($n:literal $t:ident),*) => { $( functor::<$t<i64>>(cx, r, $n); )* };
                }
                functors!("Option" Option, "Result" Res, "Vec" Vec, "Maybe" Maybe, "Either" Eit, "Validated" Val, "Choice" Choice, "Id" Id, "Writer" Wr, "PVec" PersistentVector, "First" First, "Last" Last, "Min" Min, "Max" Max, "Sum" Sum, "Product" Product);
                macro_rules! strs {
                    ($($n:literal $t:ident),*) => { $( strings::<$t<String>>(cx, r, $n); )* };
                }
                strs!("Option" Option, "Result" Res, "Vec" Vec, "Maybe" Maybe, "Either" Eit, "Validated" Val, "Choice" Choice, "Id" Id, "Writer" Wr, "PVec" PersistentVector, "First" First, "Last" Last, "Min" Min, "Max" Max);
                macro_rules! apps {
                    ($($n:literal $t:ident),*) => { $( applicative::<$t<i64>>(cx, r, $n); pure::<$t<i64>>(cx, r, $n); apply_pair!(cx, r, $n, $t); )* };
                }
                apps!("Option" Option, "Result" Res, "Vec" Vec, "Maybe" Maybe, "Either" Eit, "Validated" Val, "Choice" Choice, "Id" Id, "Writer" Wr);
                macro_rules! monads {
                    ($($n:literal $t:ident),*) => { $( monad::<$t<i64>, $t<$t<i64>>>(cx, r, $n); )* };
                }
                monads!("Option" Option, "Result" Res, "Maybe" Maybe, "Either" Eit, "Validated" Val, "Choice" Choice, "Id" Id, "Writer" Wr);
                macro_rules! pluses {
                    ($($n:literal $t:ident),*) => { $( plus::<$t<i64>>(cx, r, $n); )* };
                }
                pluses!("Option" Option, "Result" Res, "Maybe" Maybe, "Either" Eit, "Validated" Val, "Choice" Choice);
                macro_rules! ids {
                    ($($n:literal $t:ident),*) => { $( identity::<_, $t<_>>(cx, r, $n, |r| r.string()); )* };
                }
                ids!("Maybe" Maybe, "Either" Eit, "Validated" Val, "Choice" Choice, "Id" Id, "Writer" Wr, "First" First, "Last" Last, "Min" Min, "Max" Max, "PVec" PersistentVector);
                identity::<_, Sum<i64>>(cx, r, "Sum", |r| r.small());
                identity::<_, Product<i64>>(cx, r, "Product", |r| r.small());
                semigroups(cx, r);
                errors(cx, r);
                validated(cx, r);
                others(cx, r);
            }
        });
    });
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let w = r.string().chars().take(3).collect::<String>() + "w";
    let x = r.small();
    let c = &|| format!("{w:?} {x} {few} times, {n} times");
    cx.case("wide", &(&w, x, n, few), true, c);
    both(cx, "wide.combine_n", c, || w.combine_n(&few), || w.clone().combine_n_owned(few));
    both(cx, "wide.combine_n_sum", c, || Sum(x).combine_n(&n).0, || Sum(x).combine_n_owned(n).0);
    let list: Vec<i64> = (0..n as i64).map(|i| i ^ x).collect();
    both(cx, "wide.vec", c, || list.combine(&list), || list.clone().combine_owned(list.clone()));
    let f = Fun::gen_(r);
    both(cx, "wide.vec.fmap", c, || list.fmap(|v| f.ap(*v)), || list.clone().fmap_owned(|v| f.ap(v)));
    let ch: Choice<i64> = list.iter().copied().collect();
    both(cx, "wide.choice.fmap", c, || ch.fmap(|v| f.ap(*v)).to_vec(), || ch.clone().fmap_owned(|v| f.ap(v)).to_vec());
    both(cx, "wide.choice.combine", c, || ch.combine(&ch).to_vec(), || ch.clone().combine_owned(ch.clone()).to_vec());
    both(cx, "wide.choice.bind", c, || ch.bind(|v| Choice::new(*v, [f.ap(*v)])).to_vec(), || ch.clone().bind_owned(|v| Choice::new(v, [f.ap(v)])).to_vec());
    let (a, b): (Choice<i64>, Choice<i64>) = (list[..300].iter().copied().collect(), list[300..550].iter().copied().collect());
    both(cx, "wide.choice.lift2", c, || Choice::<i64>::lift2(|p: &i64, q: &i64| f.ap2(*p, *q), &a, &b).to_vec(), || Choice::<i64>::lift2_owned(|p: i64, q: i64| f.ap2(p, q), a.clone(), b.clone()).to_vec());
    let fs: Vec<Fun> = (0..17 + r.below(120)).map(|_| Fun::gen_(r)).collect();
    let vals = list[..17 + r.below(500)].to_vec();
    both(
        cx,
        "wide.vec.apply",
        c,
        || { let g: Vec<_> = fs.iter().map(|f| { let f = f.clone(); move |v: &i64| f.ap(*v) }).collect(); Applicative::apply(&g, &vals) },
        || { let g: Vec<_> = fs.iter().map(|f| { let f = f.clone(); move |v: i64| f.ap(v) }).collect(); Applicative::apply_owned(g, vals.clone()) },
    );
    let few_b = list[600..617 + r.below(60)].to_vec();
    both(cx, "wide.vec.lift2", c, || Vec::<i64>::lift2(|p: &i64, q: &i64| f.ap2(*p, *q), &vals, &few_b), || Vec::<i64>::lift2_owned(|p: i64, q: i64| f.ap2(p, q), vals.clone(), few_b.clone()));
    both(cx, "wide.vec.lift3", c, || Vec::<i64>::lift3(|p: &i64, q: &i64, s: &i64| f.ap2(f.ap2(*p, *q), *s), &few_b, &vals, &few_b), || Vec::<i64>::lift3_owned(|p: i64, q: i64, s: i64| f.ap2(f.ap2(p, q), s), few_b.clone(), vals.clone(), few_b.clone()));
    let bad = Validated::<i64, i64>::invalid_many(list.clone());
    both(cx, "wide.validated", c, || bad.fmap_invalid(|e| f.ap(*e)).errors(), || bad.clone().fmap_invalid_owned(|e| f.ap(e)).errors());
    both(cx, "wide.validated.combine", c, || bad.combine_errors(&bad).errors(), || bad.clone().combine_errors_owned(bad.clone()).errors());
}
