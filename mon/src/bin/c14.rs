#![allow(deprecated)]
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::functor::Functor;
use rustica::traits::identity::Identity;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::monoid::Monoid;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::Semigroup;
use std::collections::{BTreeMap, HashSet};

type C = Choice<i64>;

fn main() {
    main_with("C14", |cx| {
        cx.rule = "a case is one step of a random history over a choice and its list model, or one structural transformation; contents, primary, alternatives, length, iteration and the error/panic outcome are compared \
                   with the list. Distinct by (operation, list before, argument)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(24_000, 1_600_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                history(cx, &mut r);
                for _ in 0..4 {
                    nested(cx, &mut r);
                    keyed(cx, &mut r);
                    products(cx, &mut r);
                }
            }
        });
        cx.require("spilled", 500);
        cx.require("refused", 500);
        cx.require("empty", 500);
    });
}
fn look(cx: &mut Ctx, sig: &str, ch: &C, m: &[i64], c: &dyn Fn() -> String) {
    let Some((it, first, alts, ialts, len, emp, has, tv, by_ref, owned, vec, val, disp)) = cx.guard(&format!("{sig}.view"), c, || {
        (
            ch.iter().copied().collect::<Vec<_>>(),
            ch.first().copied(),
            ch.alternatives().to_vec(),
            ch.iter_alternatives().copied().collect::<Vec<_>>(),
            ch.len(),
            ch.is_empty(),
            ch.has_alternatives(),
            ch.to_vec(),
            ch.into_iter().copied().collect::<Vec<_>>(),
            ch.clone().into_iter().collect::<Vec<_>>(),
            Vec::from(ch.clone()),
            (!m.is_empty()).then(|| (*ch.value(), ch.clone().into_value())),
            ch.to_string(),
        )
    }) else {
        return;
    };
    let mv = m.to_vec();
    cx.eq(sig, &it, &mv, c);
    cx.eq(&format!("{sig}.first"), &first, &m.first().copied(), c);
    let al = m.get(1..).unwrap_or(&[]).to_vec();
    cx.eq(&format!("{sig}.alternatives"), &(&alts, &ialts), &(&al, &al), c);
    cx.eq(&format!("{sig}.len"), &(len, emp, has), &(m.len(), m.is_empty(), m.len() > 1), c);
    cx.eq(&format!("{sig}.lists"), &(&tv, &by_ref, &owned, &vec), &(&mv, &mv, &mv, &mv), c);
    cx.eq(&format!("{sig}.value"), &val, &m.first().map(|x| (*x, *x)), c);
    let w = match m.split_first() {
        None => String::new(),
        Some((h, [])) => h.to_string(),
        Some((h, t)) => format!("{h} | {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")),
    };
    cx.eq(&format!("{sig}.display"), &disp, &w, c);
}
/// iterators with inexact size hints exercise the capacity paths
fn hinted(r: &mut Rng, v: Vec<i64>) -> Box<dyn Iterator<Item = i64>> {
    match r.below(4) {
        3 => Box::new(mon::hinted(r, v)),
        0 => Box::new(v.into_iter()),
        1 => Box::new(v.into_iter().filter(|_| true)),
        _ => {
            let mut i = 0;
            Box::new(std::iter::from_fn(move || {
                i += 1;
                v.get(i - 1).copied()
            }))
        },
    }
}
fn start(r: &mut Rng) -> (C, Vec<i64>, &'static str) {
    let v = r.vec_tail(12);
    match r.below(9) {
        0 => (C::new_empty(), vec![], "new_empty"),
        1 => (mon::hinted(r, v.clone()).collect(), v, "from_iter"),
        2 => (C::from(v.clone()), v, "from_vec"),
        3 => (C::from(&v[..]), v, "from_slice"),
        4 => (C::of_many(mon::hinted(r, v.clone())), v, "of_many"),
        5 => (<C as Pure>::pure(&5), vec![5], "pure"),
        6 => {
            let cs: Vec<C> = v.chunks(3).map(|c| C::from(c)).collect();
            (cs.into_iter().collect(), v, "from_choices")
        },
        7 => {
            let cs: Vec<C> = v.chunks(2).map(|c| C::from(c)).collect();
            (cs.into_iter().sum(), v, "sum")
        },
        _ => {
            let x = r.small();
            let mut m = vec![x];
            m.extend(&v);
            (C::new(x, hinted(r, v)), m, "new")
        },
    }
}
fn history(cx: &mut Ctx, r: &mut Rng) {
    let (mut ch, mut m, how) = start(r);
    look(cx, how, &ch, &m, &|| format!("{how} -> {m:?}"));
    for _ in 0..r.below(14) {
        let before = m.clone();
        let f = Fun::gen_(r);
        let i = if r.chance(1, 6) { m.len().saturating_sub(r.below(4)) } else { r.below(m.len() + 2) };
        let xs = if m.len() > 600 { vec![] } else { r.vec_tail(4) };
        let cap = if before.len() > 40 { 400 } else { 40 };
        let x = r.small();
        if m.len() > 8 {
            cx.count("spilled", 1);
        }
        if m.is_empty() {
            cx.count("empty", 1);
        }
        let op = r.below(18);
        let c = || format!("op {op} on {before:?} i={i} f={f:?} xs={xs:?} x={x}");
        let old = ch.clone();
        // what a function was called on, in order, and what it should have been called on
        let calls: Log<i64> = Log::new();
        let note = |x: &i64| calls.add(*x);
        let rest = || before.iter().skip(1).copied().collect::<Vec<_>>();
        let mut called = None;
        macro_rules! step {
            ($name:expr, $e:expr) => {{
                let Some(nc) = cx.guard($name, c, || $e) else { return };
                ch = nc;
                $name
            }};
        }
        let name = match op {
            0 => {
                m.extend(&xs);
                let h = hinted(r, xs.clone());
                step!("add_alternatives", old.clone().add_alternatives(h))
            },
            1 | 2 => {
                // removal and its fallible form agree with each other and with the list
                let legal = m.len() > 1 && i < m.len() - 1;
                let a = quiet(|| old.clone().remove_alternative(i));
                let b = quiet(|| old.clone().try_remove_alternative(i));
                cx.check("remove_alternative.refusal", a.is_ok() == legal && b.as_ref().is_ok_and(|b| b.is_ok() == legal), || {
                    format!("{} legal={legal} panics={} try={:?}", c(), a.is_err(), b.as_ref().map(|b| b.is_ok()))
                });
                if !legal {
                    cx.count("refused", 1);
                    continue;
                }
                m.remove(i + 1);
                match (op, a, b) {
                    (1, Ok(a), _) => ch = a,
                    (_, _, Ok(Ok(b))) => ch = b,
                    _ => return,
                }
                "remove_alternative"
            },
            3 | 4 => {
                let legal = m.len() > 1 && i < m.len() - 1;
                let a = quiet(|| old.clone().swap_with_alternative(i));
                let b = quiet(|| old.clone().try_swap_with_alternative(i));
                cx.check("swap_with_alternative.refusal", a.is_ok() == legal && b.as_ref().is_ok_and(|b| b.is_ok() == legal), || {
                    format!("{} legal={legal} panics={} try={:?}", c(), a.is_err(), b.as_ref().map(|b| b.is_ok()))
                });
                if !legal {
                    cx.count("refused", 1);
                    continue;
                }
                m.swap(0, i + 1);
                match (op, a, b) {
                    (3, Ok(a), _) => ch = a,
                    (_, _, Ok(Ok(b))) => ch = b,
                    _ => return,
                }
                "swap_with_alternative"
            },
            5 => {
                let mut k = 0;
                m.retain(|x| {
                    k += 1;
                    k == 1 || f.pred(*x)
                });
                called = Some(rest());
                step!(
                    "filter",
                    old.filter(|x| {
                        note(x);
                        f.pred(*x)
                    })
                )
            },
            6 => {
                m.retain(|x| f.pred(*x));
                called = Some(before.clone());
                step!(
                    "filter_values",
                    old.filter_values(|x| {
                        note(x);
                        f.pred(*x)
                    })
                )
            },
            7 => {
                let mut s = HashSet::new();
                m.retain(|x| s.insert(*x));
                step!("dedup", old.dedup())
            },
            8 => {
                let mut s = HashSet::new();
                m.retain(|x| s.insert(f.small(*x, 4)));
                called = Some(before.clone());
                step!(
                    "dedup_by_key",
                    old.dedup_by_key(|x| {
                        note(x);
                        f.small(*x, 4)
                    })
                )
            },
            9 => {
                for x in m.iter_mut().skip(1) {
                    *x = f.ap(*x);
                }
                called = Some(rest());
                // a function that counts its calls
                let mut k = 0;
                for x in m.iter_mut().skip(1) {
                    k += 1;
                    *x = x.wrapping_add(k);
                }
                let mut k = 0;
                step!(
                    "fmap_alternatives",
                    old.fmap_alternatives(|x| {
                        note(x);
                        k += 1;
                        f.ap(*x).wrapping_add(k)
                    })
                )
            },
            10 => {
                m = m.iter().map(|x| f.ap(*x)).collect();
                step!("fmap", old.fmap(|x| f.ap(*x)))
            },
            11 => {
                m = m.iter().map(|x| f.ap(*x)).collect();
                step!("fmap_owned", old.clone().fmap_owned(|x| f.ap(x)))
            },
            12 => {
                m.extend(&xs);
                step!("combine", old.combine(&C::from(&xs[..])))
            },
            13 => {
                m.extend(&xs);
                step!("combine_owned", old.clone().combine_owned(xs.iter().copied().collect()))
            },
            14 => {
                m.splice(0..0, xs.iter().copied());
                step!("mplus", C::from(xs.clone()).mplus(&old))
            },
            15 => {
                m.extend(&xs);
                if r.chance(1, 2) {
                    step!("alt", old.alt(&C::from(&xs[..])))
                } else {
                    step!("mplus_owned", old.clone().mplus_owned(C::from(&xs[..])))
                }
            },
            16 => {
                let g = |x: i64| -> Vec<i64> { (0..f.small(x, 3) as i64).map(|j| f.ap(x) + j * 1000).collect() };
                m = m.iter().flat_map(|x| g(*x)).take(cap).collect();
                let full: Vec<i64> = before.iter().flat_map(|x| g(*x)).collect();
                let lazy = cx.guard("bind_lazy", c, || old.bind_lazy(|x| C::from(g(*x))).collect::<Vec<_>>());
                if let Some(lazy) = lazy {
                    cx.eq("bind_lazy", &lazy, &full, c);
                    // only as much as is asked for is computed
                    let want = r.below(full.len() + 1);
                    let mut need = 0;
                    let mut have = 0;
                    while have < want {
                        have += g(before[need]).len();
                        need += 1;
                    }
                    let ran = std::cell::Cell::new(0);
                    let got: Vec<i64> = old
                        .bind_lazy(|x| {
                            ran.set(ran.get() + 1);
                            C::from(g(*x))
                        })
                        .take(want)
                        .collect();
                    cx.eq("bind_lazy.taken", &&got[..], &&full[..want], c);
                    cx.check("bind_lazy.on_demand", ran.get() <= need + 1, || format!("{} calls for the first {want} values, {need} were needed: {}", ran.get(), c()));
                }
                step!("bind", old.bind(|x| C::from(g(*x))).into_iter().take(cap).collect())
            },
            _ => step!("identity_ops", C::empty().combine_owned(old.clone().combine(&C::empty()))),
        };
        if let Some(want) = called {
            cx.eq(&format!("{name}.calls"), &calls.take(), &want, c);
        }
        look(cx, name, &ch, &m, &c);
        let kept: Vec<i64> = old.iter().copied().collect();
        cx.eq(&format!("{name}.operand"), &kept, &before, c);
        queries(cx, &ch, &m, f);
        cx.case(name, &(&before, i, f, &xs), true, c);
    }
}
fn queries(cx: &mut Ctx, ch: &C, m: &[i64], f: Fun) {
    let c = || format!("{m:?} f={f:?}");
    let log = Log::new();
    if let Some((ff, fo, map)) = cx.guard("queries", c, || {
        (
            ch.find_first(|x| f.pred(**x)).copied(),
            ch.fold(1i64, |a, x| {
                log.add(*x);
                f.ap2(a, *x)
            }),
            ch.to_map_with_key(|x| f.small(*x, 4)),
        )
    }) {
        cx.eq("find_first", &ff, &m.iter().copied().find(|x| f.pred(*x)), c);
        cx.eq("fold", &fo, &m.iter().fold(1i64, |a, x| f.ap2(a, *x)), c);
        cx.eq("fold.visits", &log.take(), &m.to_vec(), c);
        let mut w = BTreeMap::new();
        for x in m {
            w.entry(f.small(*x, 4)).or_insert(*x);
        }
        cx.eq("to_map_with_key", &map.into_iter().collect::<BTreeMap<_, _>>(), &w, c);
    }
}
fn nested(cx: &mut Ctx, r: &mut Rng) {
    let n = r.len_tail(10);
    let long = r.chance(1, 20).then(|| r.below(n.max(1)));
    let vv: Vec<Vec<i64>> = (0..n).map(|i| if long == Some(i) { r.vec_tail(60) } else { r.vec_small(5) }).collect();
    let c = || format!("nested {vv:?}");
    let flat: Vec<i64> = vv.concat();
    let ch: Choice<Vec<i64>> = vv.iter().cloned().collect();
    let cc: Choice<C> = vv.iter().map(|v| C::from(&v[..])).collect();
    let legal = vv.is_empty() || !vv[0].is_empty();
    let (a, b, s) = (quiet(|| ch.flatten()), quiet(|| ch.try_flatten()), quiet(|| ch.flatten_sorted()));
    cx.check("flatten.refusal", a.is_ok() == legal && s.is_ok() == legal && b.as_ref().is_ok_and(|b| b.is_ok() == legal), || {
        format!("{} legal={legal} flatten={} sorted={} try={:?}", c(), a.is_ok(), s.is_ok(), b.as_ref().map(|b| b.is_ok()))
    });
    if let (Ok(a), Ok(Ok(b)), Ok(s)) = (a, b, s) {
        look(cx, "flatten", &a, &flat, &c);
        look(cx, "try_flatten", &b, &flat, &c);
        let mut w = flat.clone();
        if w.len() > 1 {
            w[1..].sort();
        }
        look(cx, "flatten_sorted", &s, &w, &c);
    } else {
        cx.count("refused", 1);
    }
    if let Some((j, jo)) = cx.guard("join", c, || (cc.join::<i64>(), cc.clone().join_owned::<i64>())) {
        look(cx, "join", &j, &flat, &c);
        look(cx, "join_owned", &jo, &flat, &c);
    }
    let os: Vec<Option<i64>> = flat.iter().map(|x| (r.small() > -95).then_some(*x)).collect();
    let co = || format!("sequence {os:?}");
    if let Some(s) = cx.guard("sequence", co, || os.iter().copied().collect::<Choice<Option<i64>>>().sequence()) {
        let w: Option<Vec<i64>> = os.iter().copied().collect();
        cx.eq("sequence", &s.as_ref().map(|s| s.iter().copied().collect::<Vec<_>>()), &w, co);
    }
    cx.case("nested", &(&vv, &os), n > 0, c);
}
fn products(cx: &mut Ctx, r: &mut Rng) {
    let (mut a, mut b, mut d) = (r.vec_small(6), r.vec_small(5), r.vec_small(3));
    if r.chance(1, 20) {
        let l = r.vec_tail(40);
        match r.below(3) {
            0 => a = l,
            1 => b = l,
            _ => d = l,
        }
    }
    let f = Fun::gen_(r);
    let c = || format!("a={a:?} b={b:?} d={d:?} f={f:?}");
    let (ca, cb, cd) = (C::from(&a[..]), C::from(&b[..]), C::from(&d[..]));
    let calls = Log::new();
    let Some((l2, l2o, l3, l3o, ap, apo, n)) = cx.guard("product", c, || {
        let fs: Choice<_> = a
            .iter()
            .map(|k| {
                let k = *k;
                move |x: &i64| f.ap2(k, *x)
            })
            .collect();
        let fo: Choice<_> = a
            .iter()
            .map(|k| {
                let k = *k;
                move |x: i64| f.ap2(k, x)
            })
            .collect();
        let l2 = C::lift2(
            |x: &i64, y: &i64| {
                calls.add((*x, *y));
                f.ap2(*x, *y)
            },
            &ca,
            &cb,
        );
        let n = calls.take();
        (
            l2,
            C::lift2_owned(|x: i64, y: i64| f.ap2(x, y), ca.clone(), cb.clone()),
            C::lift3(|x: &i64, y: &i64, z: &i64| f.ap3(*x, *y, *z), &ca, &cb, &cd),
            C::lift3_owned(|x: i64, y: i64, z: i64| f.ap3(x, y, z), ca.clone(), cb.clone(), cd.clone()),
            fs.apply::<i64, i64>(&cb),
            fo.apply_owned::<i64, i64>(cb.clone()),
            n,
        )
    }) else {
        return;
    };
    let w2: Vec<i64> = a.iter().flat_map(|x| b.iter().map(move |y| f.ap2(*x, *y))).collect();
    let w3: Vec<i64> = a.iter().flat_map(|x| b.iter().flat_map({ let d = &d; move |y| d.iter().map(move |z| f.ap3(*x, *y, *z)) })).collect();
    look(cx, "lift2", &l2, &w2, &c);
    look(cx, "lift2_owned", &l2o, &w2, &c);
    look(cx, "lift3", &l3, &w3, &c);
    look(cx, "lift3_owned", &l3o, &w3, &c);
    let mut calls = n;
    calls.sort();
    let mut pairs: Vec<(i64, i64)> = a.iter().flat_map(|x| b.iter().map(move |y| (*x, *y))).collect();
    pairs.sort();
    cx.eq("lift2.calls", &calls, &pairs, c);
    let wa: Vec<i64> = b.iter().flat_map(|y| a.iter().map(move |x| f.ap2(*x, *y))).collect();
    look(cx, "apply", &ap, &wa, &c);
    look(cx, "apply_owned", &apo, &wa, &c);
    cx.case("products", &(&a, &b, &d, f), true, c);
}
/// Values whose hashes collide although they differ, and values that compare equal although they differ.
#[derive(Clone, Debug, PartialEq, Eq)]
struct H(u8, u8);
impl std::hash::Hash for H {
    fn hash<S: std::hash::Hasher>(&self, s: &mut S) {
        (self.0 % 2).hash(s)
    }
}
#[derive(Clone, Debug)]
struct K(u8, usize);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.0 == o.0
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for K {
    fn hash<S: std::hash::Hasher>(&self, s: &mut S) {
        self.0.hash(s)
    }
}
fn keyed(cx: &mut Ctx, r: &mut Rng) {
    let n = if r.chance(1, 4) { r.len_tail(80) } else { r.len_upto(14) };
    let spread = *r.pick(&[4usize, 4, 40, 200]);
    let hs: Vec<H> = (0..n).map(|_| H(r.below(spread) as u8, r.below(2) as u8)).collect();
    let ks: Vec<K> = (0..n).map(|i| K(r.below(spread) as u8, i)).collect();
    let c = || format!("{hs:?} / keys {:?}", ks.iter().map(|k| k.0).collect::<Vec<_>>());
    let show = |v: &[K]| v.iter().map(|k| (k.0, k.1)).collect::<Vec<_>>();
    let ch: Choice<H> = hs.iter().cloned().collect();
    let ck: Choice<K> = ks.iter().cloned().collect();
    let groups: Vec<Vec<K>> = ks.chunks(3).map(|c| c.to_vec()).collect();
    let cg: Choice<Vec<K>> = groups.iter().cloned().collect();
    let Some((d, dk, kd, m, fs, fl)) = cx.guard("keyed", c, || {
        let m: BTreeMap<u8, (u8, u8)> = ch.to_map_with_key(|h| H(h.0, 0)).into_iter().map(|(k, v)| (k.0, (v.0, v.1))).collect();
        (
            Vec::from(ch.dedup()),
            Vec::from(ch.dedup_by_key(|h| H(h.0, 0))),
            Vec::from(ck.dedup()),
            m,
            Vec::from(cg.flatten_sorted()),
            Vec::from(cg.flatten()),
        )
    }) else {
        return;
    };
    let mut wd: Vec<H> = vec![];
    let mut wdk: Vec<H> = vec![];
    for h in &hs {
        if !wd.contains(h) {
            wd.push(h.clone());
        }
        if !wdk.iter().any(|x| x.0 == h.0) {
            wdk.push(h.clone());
        }
    }
    let mut wkd: Vec<K> = vec![];
    for k in &ks {
        if !wkd.contains(k) {
            wkd.push(k.clone());
        }
    }
    cx.eq("keyed.dedup", &d, &wd, c);
    cx.eq("keyed.dedup_by_key", &dk, &wdk, c);
    cx.eq("keyed.dedup_equal", &show(&kd), &show(&wkd), c);
    cx.eq("keyed.to_map", &m, &wdk.iter().map(|h| (h.0, (h.0, h.1))).collect(), c);
    cx.eq("keyed.flatten", &show(&fl), &show(&ks), c);
    // a stable sort of the alternatives, in the order the library documents: those of the primary come last
    if let Some((first, rest)) = groups.split_first() {
        let mut w: Vec<K> = rest.concat();
        w.extend(first[1..].iter().cloned());
        let mut w2 = first[1..].to_vec();
        w2.extend(rest.concat());
        w.sort();
        w2.sort();
        let (w, w2): (Vec<_>, Vec<_>) = (show(&w), show(&w2));
        let got = show(&fs);
        cx.check("keyed.flatten_sorted", got.first() == Some(&(first[0].0, first[0].1)) && (got[1..] == w[..] || got[1..] == w2[..]), || {
            format!("flatten_sorted {got:?}, stable order is {w:?} (or {w2:?}): {}", c())
        });
    }
    cx.case("keyed", &(hash_of(&hs.iter().map(|h| (h.0, h.1)).collect::<Vec<_>>()), hash_of(&show(&ks))), n > 1, c);
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let list: Vec<i64> = (0..n as i64).map(|i| i * 7 % 65_521).collect();
    let c = || format!("{n} values, {few}");
    cx.case("wide", &(n, few), true, c);
    let ch: C = list.iter().copied().collect();
    look(cx, "wide", &ch, &list, &c);
    let at = r.below(n - 1);
    let mut m = list.clone();
    m.remove(at + 1);
    cx.check("wide.remove", ch.clone().remove_alternative(at).to_vec() == m, c);
    let mut m = list.clone();
    m.push(-1);
    cx.check("wide.add", ch.clone().add_alternatives([-1]).to_vec() == m, c);
    let mut seen = HashSet::new();
    cx.check("wide.dedup", ch.dedup().to_vec() == list.iter().copied().filter(|x| seen.insert(*x)).collect::<Vec<_>>(), c);
    let (a, b): (C, C) = (list[..few].iter().copied().collect(), list[few..].iter().copied().collect());
    cx.check("wide.mplus", a.mplus(&b).to_vec() == list && a.clone().combine_owned(b).to_vec() == list, c);
    cx.check("wide.bind", a.bind(|x| C::new(*x, (1..60).map(|i| x + i).collect::<Vec<_>>())).len() == few * 60, c);
    cx.check("wide.filter", ch.filter(|x| x % 3 == 0).to_vec() == list.iter().copied().filter(|x| x % 3 == 0).collect::<Vec<_>>(), c);
    cx.check("wide.filter_values", ch.filter_values(|x| x % 3 != 1).to_vec() == list.iter().copied().filter(|x| x % 3 != 1).collect::<Vec<_>>(), c);
    let odd = |x: &i64| x % 7001;
    let mut keys = HashSet::new();
    let firsts: Vec<i64> = list.iter().copied().filter(|x| keys.insert(odd(x))).collect();
    cx.check("wide.dedup_by_key", ch.dedup_by_key(odd).to_vec() == firsts, c);
    cx.check("wide.to_map_with_key", ch.to_map_with_key(odd) == firsts.iter().map(|x| (odd(x), *x)).collect(), c);
    cx.check("wide.fold", ch.fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)) == list.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)), c);
    cx.check("wide.fmap_alternatives", ch.fmap_alternatives(|x| x + 1).to_vec() == list.iter().enumerate().map(|(i, x)| x + i64::from(i > 0)).collect::<Vec<_>>(), c);
    let mut m = list.clone();
    m.swap(0, at + 1);
    cx.check("wide.swap", ch.clone().swap_with_alternative(at).to_vec() == m && ch.clone().try_swap_with_alternative(at).map(|v| v.to_vec()) == Ok(m), c);
    let pairs: Choice<Vec<i64>> = list.chunks(3).map(|c| c.to_vec()).collect();
    cx.check("wide.flatten", pairs.flatten().to_vec() == list && pairs.try_flatten().map(|v| v.to_vec()) == Ok(list.clone()), c);
    let mut rest = list[1..].to_vec();
    rest.sort();
    cx.check("wide.flatten_sorted", pairs.flatten_sorted().to_vec() == [&list[..1], &rest[..]].concat(), c);
    cx.check("wide.of_many", C::of_many(list.clone()).to_vec() == list && C::new(list[0], list[1..].to_vec()).to_vec() == list, c);
    cx.check("wide.bind_lazy", ch.bind_lazy(|x| C::new(*x, [])).collect::<Vec<_>>() == list, c);
    cx.check("wide.fmap", ch.fmap(|x| x + 1).to_vec() == list.iter().map(|x| x + 1).collect::<Vec<_>>(), c);
}
