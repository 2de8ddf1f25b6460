use mon::views::{K, M, Sub, gen_m};
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::id::Id;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use rustica::traits::monoid::{self, Monoid, MonoidExt};
use rustica::traits::semigroup::{self, Semigroup, SemigroupExt};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;

fn main() {
    main_with("C09", |cx| {
        cx.rule = "a case is a list of values of one combinable type; combine/combine_owned, associativity, identity and every bulk helper are compared with a pairwise left fold of an independent model of \
                   combination. Distinct by (type, values)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(24_000, 2_400_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let r = &mut r;
                macro_rules! both {
                    ($name:expr, $gen:expr, $model:expr) => {
                        sg(cx, r, $name, $gen, $model);
                        mo(cx, r, $name, $gen, $model);
                    };
                }
                both!("String", |r: &mut Rng| r.string(), |a: &String, b: &String| format!("{a}{b}"));
                both!("Vec", |r: &mut Rng| r.vec_tail(9), vcat);
                both!("VecString", |r: &mut Rng| (0..r.len_tail(3)).map(|_| r.string()).collect::<Vec<String>>(), |a: &Vec<String>, b: &Vec<String>| [&a[..], &b[..]].concat());
                both!("Sum", |r: &mut Rng| Sum(r.small()), |a: &Sum<i64>, b: &Sum<i64>| Sum(a.0 + b.0));
                both!("SumF", |r: &mut Rng| Sum(r.small() as f64), |a: &Sum<f64>, b: &Sum<f64>| Sum(a.0 + b.0));
                both!("Product", |r: &mut Rng| Product(*r.pick(&[1i128, -1, 2, 3, -2, 0, 1, 1])), |a: &Product<i128>, b: &Product<i128>| Product(a.0 * b.0));
                both!("First", |r: &mut Rng| First(r.chance(2, 3).then(|| r.small())), |a: &First<i64>, b: &First<i64>| First(a.0.or(b.0)));
                both!("Last", |r: &mut Rng| Last(r.chance(2, 3).then(|| r.small())), |a: &Last<i64>, b: &Last<i64>| Last(b.0.or(a.0)));
                both!("Id", |r: &mut Rng| Id::new(r.string()), |a: &Id<String>, b: &Id<String>| Id::new(format!("{}{}", a.as_ref(), b.as_ref())));
                both!("Writer", gwriter, |a: &Wr, b: &Wr| {
                    let ((la, va), (lb, vb)) = (a.clone().run(), b.clone().run());
                    Writer::new([la, lb].concat(), format!("{va}{vb}"))
                });
                both!("Choice", gm::<Choice<i64>>, |a: &Choice<i64>, b: &Choice<i64>| {
                    let mut v = a.view().items;
                    v.extend(b.view().items);
                    Choice::mk(&M::items(v))
                });
                both!("Validated", gm::<Validated<String, i64>>, |a: &Validated<String, i64>, b: &Validated<String, i64>| {
                    let (x, y) = (a.view(), b.view());
                    Sub::mk(&if x.ok() {
                        x
                    } else if y.ok() {
                        y
                    } else {
                        M::err([x.errs, y.errs].concat())
                    })
                });
                both!("PVec", gpvec, |a: &PersistentVector<i64>, b: &PersistentVector<i64>| a.iter().chain(b.iter()).copied().collect());
                // semigroups without identity, and structured values
                sg(cx, r, "Min", |r| Min(r.small()), |a, b| Min(a.0.min(b.0)));
                sg(cx, r, "Max", |r| Max(r.small()), |a, b| Max(a.0.max(b.0)));
                sg(cx, r, "MinString", |r| Min(r.string()), |a, b| Min(a.0.clone().min(b.0.clone())));
                sg(cx, r, "MaxString", |r| Max(r.string()), |a, b| Max(a.0.clone().max(b.0.clone())));
                sg(cx, r, "HashMap", |r| gmap(r).into_iter().collect::<HashMap<i64, String>>(), |a, b| {
                    let mut m = a.clone();
                    for (k, v) in b {
                        let e = m.get(k).cloned().unwrap_or_default() + v;
                        m.insert(*k, e);
                    }
                    m
                });
                sg(cx, r, "BTreeMap", gmap, mapcat);
                sg(cx, r, "HashSet", |r| gset(r).into_iter().collect::<HashSet<i64>>(), |a, b| a.iter().chain(b).copied().collect());
                sg(cx, r, "BTreeSet", |r| gset(r).into_iter().collect::<BTreeSet<i64>>(), |a, b| a.iter().chain(b).copied().collect());
                sg(cx, r, "Pair", |r| (r.string(), r.vec_tail(3)), |a: &(String, Vec<i64>), b| (format!("{}{}", a.0, b.0), vcat(&a.1, &b.1)));
                sg(cx, r, "Triple", |r| (r.string(), Max(r.small()), r.vec_tail(3)), |a: &(String, Max<i64>, Vec<i64>), b| {
                    (format!("{}{}", a.0, b.0), Max(a.1.0.max(b.1.0)), vcat(&a.2, &b.2))
                });
                sg(cx, r, "Quad", |r| (r.string(), Sum(r.small()), r.vec_tail(3), r.string()), |a: &(String, Sum<i64>, Vec<i64>, String), b| {
                    (format!("{}{}", a.0, b.0), Sum(a.1.0 + b.1.0), vcat(&a.2, &b.2), format!("{}{}", a.3, b.3))
                });
                sg(cx, r, "Option", |r| r.chance(2, 3).then(|| r.string()), |a: &Option<String>, b| match (a, b) {
                    (None, None) => None,
                    (x, y) => Some(format!("{}{}", x.clone().unwrap_or_default(), y.clone().unwrap_or_default())),
                });
                sg(cx, r, "Nested", |r| r.chance(2, 3).then(|| (gmap(r), Min(r.small()))), |a: &Option<(BTreeMap<i64, String>, Min<i64>)>, b| match (a, b) {
                    (Some(x), Some(y)) => Some((mapcat(&x.0, &y.0), Min(x.1.0.min(y.1.0)))),
                    (Some(x), None) | (None, Some(x)) => Some(x.clone()),
                    (None, None) => None,
                });
                // the optional type's identity
                let o = r.chance(2, 3).then(|| r.string());
                let s = Sum(r.small());
                if let Some((l, rr)) = cx.guard("Option.identity", || format!("{o:?}"), || (None.combine(&o), o.clone().combine_owned(None))) {
                    cx.eq("Option.identity", &(&l, &rr), &(&o, &o), || format!("{o:?}"));
                }
                let w: Writer<Sum<i64>, String> = Writer::new(s.clone(), r.string());
                if let Some((l, rr)) = cx.guard("WriterSum.identity", || format!("{s:?}"), || (<Writer<Sum<i64>, String>>::empty().combine(&w) == w, w.combine(&<Writer<Sum<i64>, String>>::empty()) == w)) {
                    cx.eq("WriterSum.identity", &(l, rr), &(true, true), || format!("{s:?}"));
                }
                let (a, b) = (gmap(r), gmap(r));
                let e = BTreeMap::new();
                if let Some((l, rr, h)) = cx.guard("Map.identity", || format!("{a:?}"), || {
                    (a.combine(&e), e.combine(&a), HashMap::<i64, String>::new().combine_owned(b.clone().into_iter().collect()))
                }) {
                    cx.eq("Map.identity", &(&l, &rr), &(&a, &a), || format!("{a:?}"));
                    cx.eq("Map.identity", &h.into_iter().collect::<BTreeMap<_, _>>(), &b, || format!("{b:?}"));
                }
                predicates(cx, r);
            }
        });
        cx.require("long_inputs", 100);
        cx.require("empty_inputs", 500);
    });
}
type Wr = Writer<Vec<i64>, String>;
fn gwriter(r: &mut Rng) -> Wr {
    Writer::new(r.vec_tail(3), r.string())
}
fn vcat(a: &Vec<i64>, b: &Vec<i64>) -> Vec<i64> {
    [&a[..], &b[..]].concat()
}
fn gm<S: Sub<i64>>(r: &mut Rng) -> S {
    let m: M<i64> = gen_m(S::K, r, |r| r.small());
    let _ = K::Opt;
    S::mk(&m)
}
fn gpvec(r: &mut Rng) -> PersistentVector<i64> {
    match r.below(12) {
        0 => (0..60 + r.below(140) as i64).collect(),
        1 => (0..60 + r.below(20) as i64).fold(PersistentVector::new(), |v, x| v.push_back(x)),
        _ => PersistentVector::from_slice(&r.vec_tail(6)),
    }
}
fn gmap(r: &mut Rng) -> BTreeMap<i64, String> {
    if r.chance(1, 20) {
        return (0..r.below(150)).map(|_| (r.range(0, 120), r.string())).collect();
    }
    (0..r.len_tail(5)).map(|_| (r.range(0, 5), r.string())).collect()
}
fn gset(r: &mut Rng) -> Vec<i64> {
    if r.chance(1, 20) { (0..r.below(200)).map(|_| r.small()).collect() } else { r.vec_tail(6) }
}
fn mapcat(a: &BTreeMap<i64, String>, b: &BTreeMap<i64, String>) -> BTreeMap<i64, String> {
    let mut m = a.clone();
    for (k, v) in b {
        let e = m.get(k).cloned().unwrap_or_default() + v;
        m.insert(*k, e);
    }
    m
}
fn list<T>(r: &mut Rng, g: &impl Fn(&mut Rng) -> T) -> Vec<T> {
    let n = if r.chance(1, 40) { 40 + r.below(100) } else { r.len_upto(7) };
    (0..n).map(|_| g(r)).collect()
}
fn sg<T: Semigroup + Clone + PartialEq + Debug>(cx: &mut Ctx, r: &mut Rng, ty: &str, g: impl Fn(&mut Rng) -> T, model: impl Fn(&T, &T) -> T) {
    let (x, y, z) = (g(r), g(r), g(r));
    let xs = list(r, &g);
    if ty == "Product" && xs.len() > 55 {
        return;
    }
    let n = 1 + if r.chance(1, 20) { r.below(40) } else { r.below(5) };
    let c = || format!("{ty} x={x:?} y={y:?} z={z:?} n={n} xs={xs:?}");
    let fold = |init: &T, l: &[T]| l.iter().fold(init.clone(), |a, b| model(&a, b));
    let reps: Vec<T> = vec![x.clone(); n - 1];
    if let Some((xy, l, rr, lo, ro, mixd)) = cx.guard(&format!("{ty}.combine"), c, || {
        (
            x.combine(&y),
            x.combine(&y).combine(&z),
            x.combine(&y.combine(&z)),
            x.clone().combine_owned(y.clone()).combine_owned(z.clone()),
            x.clone().combine_owned(y.clone().combine_owned(z.clone())),
            x.combine(&y).combine_owned(z.clone()),
        )
    }) {
        let w2 = model(&x, &y);
        let w3 = model(&w2, &z);
        cx.eq(&format!("{ty}.combine"), &xy, &w2, c);
        cx.eq(&format!("{ty}.assoc"), &(&l, &rr), &(&w3, &w3), c);
        cx.eq(&format!("{ty}.assoc_owned"), &(&lo, &ro, &mixd), &(&w3, &w3, &w3), c);
    }
    if xs.len() > 30 {
        cx.count("long_inputs", 1);
    }
    if xs.is_empty() {
        cx.count("empty_inputs", 1);
    }
    if let Some((a, b, d, e, f, all)) = cx.guard(&format!("{ty}.bulk"), c, || {
        (
            x.clone().combine_all(mon::hinted_as(n as u64, xs.clone())),
            semigroup::combine_values(x.clone(), mon::hinted_as(n as u64 + 1, xs.clone())),
            semigroup::combine_all_values(mon::hinted_as(n as u64 + 2, xs.clone())),
            x.combine_n(&n),
            x.clone().combine_n_owned(n),
            (!xs.is_empty()).then(|| T::combine_all_owned(mon::hinted_as(n as u64 + 3, xs.clone()))),
        )
    }) {
        let w = fold(&x, &xs);
        let wall = xs.first().map(|h| fold(h, &xs[1..]));
        cx.eq(&format!("{ty}.combine_all"), &(&a, &b), &(&w, &w), c);
        cx.eq(&format!("{ty}.combine_all_values"), &(&d, &all), &(&wall, &wall), c);
        let wn = fold(&x, &reps);
        cx.eq(&format!("{ty}.combine_n"), &e, &wn, c);
        cx.eq(&format!("{ty}.combine_n_owned"), &f, &wn, c);
    }
    cx.case(ty, &format!("{x:?}{y:?}{z:?}{n}{xs:?}"), true, c);
}
fn mo<T: Monoid + Clone + PartialEq + Debug>(cx: &mut Ctx, r: &mut Rng, ty: &str, g: impl Fn(&mut Rng) -> T, model: impl Fn(&T, &T) -> T) {
    let x = g(r);
    let xs = list(r, &g);
    if ty == "Product" && xs.len() > 55 {
        return;
    }
    let n = if r.chance(1, 20) { r.below(40) } else { r.below(5) };
    let c = || format!("{ty} x={x:?} n={n} xs={xs:?}");
    if let Some((l, rr, lo, ro, all, mc, rep, pw, e, ise, isx)) = cx.guard(&format!("{ty}.monoid"), c, || {
        let e = T::empty();
        (
            e.combine(&x),
            x.combine(&e),
            T::empty().combine_owned(x.clone()),
            x.clone().combine_owned(T::empty()),
            monoid::combine_all(mon::hinted_as(n as u64, xs.clone())),
            monoid::mconcat(&xs),
            monoid::repeat(x.clone(), n),
            monoid::power(x.clone(), n),
            T::empty(),
            T::empty().is_empty_monoid(),
            x.is_empty_monoid(),
        )
    }) {
        cx.eq(&format!("{ty}.identity"), &(&l, &rr, &lo, &ro), &(&x, &x, &x, &x), c);
        let w = match xs.split_first() {
            Some((h, t)) => t.iter().fold(h.clone(), |a, b| model(&a, b)),
            None => e.clone(),
        };
        cx.eq(&format!("{ty}.combine_all_monoid"), &(&all, &mc), &(&w, &w), c);
        let wr = (0..n).fold(None, |a: Option<T>, _| Some(a.map_or(x.clone(), |a| model(&a, &x)))).unwrap_or(e.clone());
        cx.eq(&format!("{ty}.repeat"), &(&rep, &pw), &(&wr, &wr), c);
        cx.eq(&format!("{ty}.is_empty_monoid"), &(ise, isx), &(true, x == e), c);
    }
    cx.case(&format!("{ty}.monoid"), &format!("{x:?}{n}{xs:?}"), true, c);
}
fn predicates(cx: &mut Ctx, r: &mut Rng) {
    let fs: Vec<Fun> = (0..1 + r.below(4)).map(|_| Fun::gen_(r)).collect();
    let pts: Vec<i64> = (0..8).map(|_| r.small()).collect();
    let c = || format!("Predicate {fs:?} at {pts:?}");
    if let Some((got, gota, gote)) = cx.guard("Predicate", c, || {
        let p = |f: &Fun| {
            let f = *f;
            Predicate::new(move |x: &i64| f.pred(*x))
        };
        let all: Vec<Predicate<i64>> = fs.iter().map(p).collect();
        let u = monoid::combine_all(all.clone());
        let u2 = all.iter().rev().fold(Predicate::empty(), |a, b| b.combine(&a));
        let e = p(&fs[0]).combine_owned(Predicate::empty());
        let at = |p: &Predicate<i64>| pts.iter().map(|x| p.contains(x)).collect::<Vec<_>>();
        (at(&u), at(&u2), at(&e))
    }) {
        let w: Vec<bool> = pts.iter().map(|x| fs.iter().any(|f| f.pred(*x))).collect();
        cx.eq("Predicate.combine", &(&got, &gota), &(&w, &w), c);
        cx.eq("Predicate.identity", &gote, &pts.iter().map(|x| fs[0].pred(*x)).collect::<Vec<_>>(), c);
    }
    cx.case("Predicate", &(&fs, &pts), true, c);
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let w = r.string().chars().take(3).collect::<String>() + "w";
    let x = r.small();
    let c = || format!("{w:?} {x} {few} times, {n} times");
    cx.case("wide", &(&w, x, n, few), true, c);
    let strs: Vec<String> = (0..n).map(|i| format!("{w}{i}")).collect();
    let sums: Vec<Sum<i64>> = (0..n as i64).map(|i| Sum(i + x)).collect();
    let total = sums.iter().map(|s| s.0).sum::<i64>();
    let lists: Vec<Vec<i64>> = (0..n as i64).map(|i| vec![i]).collect();
    let Some((words, reps, sr, bulk, lst)) = cx.guard("wide", c, || {
        (
            [monoid::combine_all(strs.clone()), strs[0].clone().combine_all(strs[1..].to_vec()), semigroup::combine_values(strs[0].clone(), strs[1..].to_vec()), String::combine_all_owned(strs.clone())],
            [w.combine_n(&few), w.clone().combine_n_owned(few), monoid::repeat(w.clone(), few), monoid::power(w.clone(), few)],
            [Sum(x).combine_n(&n), Sum(x).combine_n_owned(n), monoid::repeat(Sum(x), n), monoid::power(Sum(x), n)],
            [monoid::combine_all(sums.clone()), monoid::mconcat(&sums), semigroup::combine_all_values(sums.clone()).unwrap()],
            monoid::combine_all(lists),
        )
    }) else {
        return;
    };
    let text = strs.concat();
    for g in words {
        cx.check("wide.words", g == text, c);
    }
    for g in reps {
        cx.eq("wide.repeat", &g, &w.repeat(few), c);
    }
    for g in sr {
        cx.eq("wide.repeat_sum", &g.0, &(x * n as i64), c);
    }
    for g in bulk {
        cx.eq("wide.sum", &g.0, &total, c);
    }
    cx.check("wide.list", lst == (0..n as i64).collect::<Vec<_>>(), c);
}
