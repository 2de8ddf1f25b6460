use mon::views::*;
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{max::Max, sum::Sum};
use rustica::pvec::PersistentVector;
use rustica::traits::foldable::{Foldable, FoldableExt};
use rustica::traits::hkt::HKT;

fn main() {
    main_with("C10", |cx| {
        cx.rule = "a case is a foldable container of one type plus function codes; fold_left/fold_right results and their visit logs, fold_map, fold_monoid and every FoldableExt query are compared with the element \
                   list. Distinct by (type, contents, functions)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(30_000, 3_000_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let r = &mut r;
                macro_rules! ty {
                    ($name:expr, $t:ident) => {{
                        let mut m = gen_m(<$t<i64> as Sub<i64>>::K, r, |r| r.small());
                        if r.chance(1, 5) {
                            m.items.sort();
                            if r.chance(1, 2) && m.items.len() > 1 {
                                let i = r.below(m.items.len() - 1);
                                m.items.swap(i, i + 1);
                            }
                        }
                        let s = <$t<i64> as Sub<i64>>::mk(&m);
                        folds(cx, r, $name, &m, &s);
                        let ms = gen_m(<$t<i64> as Sub<i64>>::K, r, |r| r.string());
                        strs(cx, $name, &ms, &<$t<String> as Sub<String>>::mk(&ms));
                        let mb = gen_m(<$t<i64> as Sub<i64>>::K, r, |r| *r.pick(&[1i128, 2, -1, 3, 1, -2, 0]));
                        prods(cx, $name, &mb, &<$t<i128> as Sub<i128>>::mk(&mb));
                        let mc = gen_m(<$t<Cat> as Sub<Cat>>::K, r, |r| Cat(r.string()));
                        ordered(cx, $name, &mc, &<$t<Cat> as Sub<Cat>>::mk(&mc));
                        let mf = gen_m(<$t<f64> as Sub<f64>>::K, r, |r| *r.pick(&[f64::NAN, 0.0, -0.0, 1.5, 2.5, f64::INFINITY]));
                        let probe = *r.pick(&[f64::NAN, 0.0, -0.0, 1.5, 7.0]);
                        floats(cx, $name, &mf, probe, &<$t<f64> as Sub<f64>>::mk(&mf));
                    }};
                }
                ty!("Vec", Vec);
                ty!("Option", Option);
                ty!("Result", Res);
                ty!("Choice", Choice);
                ty!("Validated", Val);
                ty!("Id", Id);
                ty!("PVec", PersistentVector);
                // persistent vectors of other shapes
                let items = r.vec_small(300);
                let mut v: PersistentVector<i64> = PersistentVector::new();
                let mut m: Vec<i64> = vec![];
                for x in items {
                    match r.below(5) {
                        0 => {
                            v = v.push_front(x);
                            m.insert(0, x);
                        },
                        1 if m.len() > 3 => {
                            let i = r.below(m.len());
                            let (a, b) = v.split_at(i);
                            v = b.concat(&a);
                            m.rotate_left(i);
                        },
                        _ => {
                            v = v.push_back(x);
                            m.push(x);
                        },
                    }
                }
                folds(cx, r, "PVec", &M::items(m), &v);
            }
        });
        cx.require("empty", 1000);
        cx.require("large", 500);
    });
}
type Res<T> = Result<T, String>;
type Val<T> = Validated<String, T>;

fn folds<S>(cx: &mut Ctx, r: &mut Rng, ty: &str, m: &M<i64>, s: &S)
where
    S: Foldable + FoldableExt + HKT<Source = i64> + Sub<i64>,
{
    let xs = &m.items;
    let f = Fun::gen_(r);
    let p = Fun::gen_(r);
    let init = r.small();
    let probe = if r.chance(1, 2) && !xs.is_empty() { *r.pick(xs) } else { r.small() };
    let c = || format!("{ty} {m:?} f={f:?} p={p:?} init={init}");
    if xs.is_empty() {
        cx.count("empty", 1);
    }
    if xs.len() > 32 {
        cx.count("large", 1);
    }
    let log = Log::new();
    if let Some((l, ll, rr, rl)) = cx.guard(&format!("{ty}.fold"), c, || {
        let l = s.fold_left(&init, |a, x| {
            log.add(*x);
            f.ap2(*a, *x)
        });
        let ll = log.take();
        let rr = s.fold_right(&init, |x, a| {
            log.add(*x);
            f.ap2(*x, *a)
        });
        (l, ll, rr, log.take())
    }) {
        let rev: Vec<i64> = xs.iter().rev().copied().collect();
        cx.eq(&format!("{ty}.fold_left"), &l, &xs.iter().fold(init, |a, x| f.ap2(a, *x)), c);
        cx.eq(&format!("{ty}.fold_right"), &rr, &rev.iter().fold(init, |a, x| f.ap2(*x, a)), c);
        cx.eq(&format!("{ty}.fold_left.visits"), &ll, xs, c);
        cx.eq(&format!("{ty}.fold_right.visits"), &rl, &rev, c);
    }
    if let Some((fm, fmax, fs, len, emp)) = cx.guard(&format!("{ty}.fold_map"), c, || {
        (
            s.fold_map::<String, _>(|x| format!("{};", f.ap(*x))),
            s.fold_map::<Vec<Sum<i64>>, _>(|x| vec![Sum(*x)]),
            s.fold_monoid::<Sum<i64>>(),
            Foldable::length(s),
            Foldable::is_empty(s),
        )
    }) {
        cx.eq(&format!("{ty}.fold_map"), &fm, &xs.iter().map(|x| format!("{};", f.ap(*x))).collect::<String>(), c);
        cx.eq(&format!("{ty}.fold_map"), &fmax, &xs.iter().map(|x| Sum(*x)).collect::<Vec<_>>(), c);
        cx.eq(&format!("{ty}.fold_monoid"), &fs.0, &xs.iter().sum::<i64>(), c);
        cx.eq(&format!("{ty}.length"), &(len, emp), &(xs.len(), xs.is_empty()), c);
    }
    if let Some((find, all, any, has, vec, sum, mx, mn, red, sorted)) = cx.guard(&format!("{ty}.ext"), c, || {
        (
            FoldableExt::find(s, |x| p.pred(*x)),
            FoldableExt::all(s, |x| p.pred(*x)),
            FoldableExt::any(s, |x| p.pred(*x)),
            FoldableExt::contains(s, &probe),
            FoldableExt::to_vec(s),
            FoldableExt::sum_values(s),
            FoldableExt::maximum(s),
            FoldableExt::minimum(s),
            FoldableExt::reduce(s, |a, b| f.ap2(*a, *b)),
            FoldableExt::is_sorted(s),
        )
    }) {
        cx.eq(&format!("{ty}.find"), &find, &xs.iter().copied().find(|x| p.pred(*x)), c);
        cx.eq(&format!("{ty}.all_any"), &(all, any), &(xs.iter().all(|x| p.pred(*x)), xs.iter().any(|x| p.pred(*x))), c);
        cx.eq(&format!("{ty}.contains"), &has, &mon::among(&xs, &probe), || format!("{} probe={probe}", c()));
        cx.eq(&format!("{ty}.to_vec"), &vec, xs, c);
        cx.eq(&format!("{ty}.sum_values"), &sum, &xs.iter().sum::<i64>(), c);
        cx.eq(&format!("{ty}.max_min"), &(mx, mn), &(xs.iter().max().copied(), xs.iter().min().copied()), c);
        cx.eq(&format!("{ty}.reduce"), &red, &xs.iter().copied().reduce(|a, b| f.ap2(a, b)), c);
        cx.eq(&format!("{ty}.is_sorted"), &sorted, &mon::in_order(&xs), c);
    }
    if let Some((o, vmax)) = cx.guard(&format!("{ty}.fold_option"), c, || {
        (
            FoldableExt::fold_option::<String, _>(s, |x| (f.small(*x, 12) > 0).then(|| format!("{x},"))),
            s.fold_map::<Vec<Max<i64>>, _>(|x| vec![Max(f.ap(*x))]).len(),
        )
    }) {
        let w: Option<String> = xs.iter().map(|x| (f.small(*x, 12) > 0).then(|| format!("{x},"))).collect();
        cx.eq(&format!("{ty}.fold_option"), &o, &w, c);
        cx.eq(&format!("{ty}.fold_map.len"), &vmax, &xs.len(), c);
    }
    let after = s.view();
    cx.eq(&format!("{ty}.operand"), &after, m, c);
    cx.case(ty, &(m, f, p, init), true, c);
}
fn strs<S>(cx: &mut Ctx, ty: &str, m: &M<String>, s: &S)
where
    S: Foldable + FoldableExt + HKT<Source = String>,
{
    let c = || format!("{ty} {m:?}");
    if let Some((l, rr, fm, mx, srt, v)) = cx.guard(&format!("{ty}.fold_str"), c, || {
        (
            s.fold_left(&String::from("^"), |a, x| a.clone() + x + "|"),
            s.fold_right(&String::from("$"), |x, a| a.clone() + x + "|"),
            s.fold_monoid::<String>(),
            FoldableExt::maximum(s),
            FoldableExt::is_sorted(s),
            FoldableExt::to_vec(s),
        )
    }) {
        let xs = &m.items;
        cx.eq(&format!("{ty}.fold_str"), &l, &xs.iter().fold("^".to_string(), |a, x| a + x + "|"), c);
        cx.eq(&format!("{ty}.fold_str"), &rr, &xs.iter().rev().fold("$".to_string(), |a, x| a + x + "|"), c);
        cx.eq(&format!("{ty}.fold_monoid_str"), &fm, &xs.concat(), c);
        cx.eq(&format!("{ty}.max_str"), &(mx, srt), &(xs.iter().max().cloned(), mon::in_order(&xs)), c);
        cx.eq(&format!("{ty}.to_vec_str"), &v, xs, c);
        cx.case(&format!("{ty}.str"), m, true, c);
    }
}
/// addition and multiplication that show the order and grouping they were done in
#[derive(Clone, PartialEq, Debug, Hash)]
struct Cat(String);
impl Default for Cat {
    fn default() -> Cat {
        Cat("0".into())
    }
}
impl From<u8> for Cat {
    fn from(n: u8) -> Cat {
        Cat(n.to_string())
    }
}
impl std::ops::Add for Cat {
    type Output = Cat;
    fn add(self, o: Cat) -> Cat {
        Cat(self.0 + "+" + &o.0)
    }
}
impl std::ops::Mul for Cat {
    type Output = Cat;
    fn mul(self, o: Cat) -> Cat {
        Cat(self.0 + "*" + &o.0)
    }
}
fn ordered<S>(cx: &mut Ctx, ty: &str, m: &M<Cat>, s: &S)
where
    S: Foldable + FoldableExt + HKT<Source = Cat>,
{
    let c = || format!("{ty} {m:?}");
    if let Some((a, b)) = cx.guard(&format!("{ty}.ordered_sum"), c, || (FoldableExt::sum_values(s), FoldableExt::product_values(s))) {
        // starting from the neutral element or from the first one, but always left to right
        let join = |sep: &str| m.items.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(sep);
        let ok = |got: &str, z: &str, sep: &str| got == if m.items.is_empty() { z.to_string() } else { format!("{z}{sep}{}", join(sep)) } || (!m.items.is_empty() && got == join(sep));
        cx.check(&format!("{ty}.sum_order"), ok(&a.0, "0", "+"), || format!("{} sum {a:?}", c()));
        cx.check(&format!("{ty}.product_order"), ok(&b.0, "1", "*"), || format!("{} product {b:?}", c()));
        cx.case(&format!("{ty}.ordered"), m, true, c);
    }
}
fn floats<S>(cx: &mut Ctx, ty: &str, m: &M<f64>, probe: f64, s: &S)
where
    S: Foldable + FoldableExt + HKT<Source = f64>,
{
    let c = || format!("{ty} {m:?} probe {probe}");
    if let Some((has, v)) = cx.guard(&format!("{ty}.floats"), c, || (FoldableExt::contains(s, &probe), FoldableExt::to_vec(s))) {
        cx.eq(&format!("{ty}.contains_float"), &has, &mon::among(&m.items, &probe), c);
        cx.eq(&format!("{ty}.to_vec_float"), &v.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), &m.items.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), c);
    }
}
fn prods<S>(cx: &mut Ctx, ty: &str, m: &M<i128>, s: &S)
where
    S: Foldable + FoldableExt + HKT<Source = i128>,
{
    let c = || format!("{ty} {m:?}");
    if m.items.len() > 60 {
        return;
    }
    if let Some((p, q)) = cx.guard(&format!("{ty}.product"), c, || (FoldableExt::product_values(s), FoldableExt::sum_values(s))) {
        cx.eq(&format!("{ty}.product_values"), &(p, q), &(m.items.iter().product::<i128>(), m.items.iter().sum()), c);
        cx.case(&format!("{ty}.product"), m, true, c);
    }
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let list: Vec<i64> = (0..n as i64).map(|i| mix(i as u64 ^ few as u64) as i64 % 1000).collect();
    let c = || format!("{n} elements, salt {few}");
    cx.case("wide", &(n, few), true, c);
    wide_one(cx, "Vec", &list, &list, &c);
    wide_one(cx, "Choice", &list, &list.iter().copied().collect::<Choice<i64>>(), &c);
    wide_one(cx, "PVec", &list, &list.iter().copied().collect::<PersistentVector<i64>>(), &c);
}
fn wide_one<S: Foldable + FoldableExt + HKT<Source = i64>>(cx: &mut Ctx, ty: &str, list: &[i64], s: &S, c: &dyn Fn() -> String) {
    let k = |x: &str| format!("wide.{ty}.{x}");
    let step = |a: u64, x: i64| a.wrapping_mul(6364136223846793005).wrapping_add(x as u64);
    cx.eq(&k("fold_left"), &s.fold_left(&1u64, |a, x| step(*a, *x)), &list.iter().fold(1, |a, x| step(a, *x)), c);
    cx.eq(&k("fold_right"), &s.fold_right(&1u64, |x, a| step(*a, *x)), &list.iter().rfold(1, |a, x| step(a, *x)), c);
    cx.eq(&k("length"), &(Foldable::length(s), Foldable::is_empty(s)), &(list.len(), false), c);
    cx.eq(&k("sum"), &(s.sum_values(), s.fold_map(|x| Sum(*x)).0), &(list.iter().sum(), list.iter().sum()), c);
    cx.eq(&k("extremes"), &(s.maximum(), s.minimum()), &(list.iter().max().copied(), list.iter().min().copied()), c);
    let last = list[list.len() - 1];
    let at = list.iter().position(|x| *x == last).unwrap();
    let seen = std::cell::Cell::new(0usize);
    let hit = FoldableExt::find(s, |x| {
        seen.set(seen.get() + 1);
        *x == last
    });
    cx.eq(&k("find"), &(hit, seen.get() > at), &(Some(last), true), c);
    cx.eq(&k("queries"), &(FoldableExt::all(s, |x| *x < 1000), FoldableExt::any(s, |x| *x == 1000), FoldableExt::contains(s, &last), FoldableExt::contains(s, &1000)), &(true, false, true, false), c);
    cx.eq(&k("reduce"), &s.reduce(|a, b| step(*a as u64, *b) as i64), &list.iter().copied().reduce(|a, b| step(a as u64, b) as i64), c);
}
