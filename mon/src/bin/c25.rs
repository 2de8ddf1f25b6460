//! C25: lenses, prisms and isomorphism optics obey the optic laws.
use mon::*;
use rustica::datatypes::either::Either;
use rustica::datatypes::iso_lens::IsoLens;
use rustica::datatypes::iso_prism::IsoPrism;
use rustica::datatypes::lens::Lens;
use rustica::datatypes::prism::Prism;
use rustica::datatypes::validated::Validated;
use rustica::traits::iso::{Iso, IsoExt, ResultEitherIso, ResultValidatedIso};
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::Hash;

// ------------------------------------------------------------------ data
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Inner {
    x: i64,
    y: String,
    z: Option<i64>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Rec {
    a: i64,
    s: String,
    v: Vec<i64>,
    t: (i64, bool),
    inner: Box<Inner>,
}
/// equal by key only: shows which of two equal values was kept
#[derive(Clone, Debug, Hash)]
struct Keyed(i64, u64);
impl PartialEq for Keyed {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
fn inner(r: &mut Rng) -> Inner {
    Inner { x: r.small(), y: r.string(), z: if r.chance(1, 2) { Some(r.small()) } else { None } }
}
fn rec(r: &mut Rng) -> Rec {
    Rec { a: r.small(), s: r.string(), v: r.vec_tail(5), t: (r.small(), r.chance(1, 2)), inner: Box::new(inner(r)) }
}

// ------------------------------------------------------------------ lenses
/// One lens against the reference pair (rget, rset); every value generated and the present one are tried.
#[allow(clippy::too_many_arguments)]
fn lens_laws<S, A, G, P>(
    cx: &mut Ctx, kind: &str, l: &Lens<S, A, G, P>, s: &S, vals: &[A], rget: impl Fn(&S) -> A, rset: impl Fn(&S, &A) -> S, sets: &Cell<u64>,
) where
    S: Clone + Debug + PartialEq + Hash,
    A: Clone + Debug + PartialEq + Hash,
    G: Fn(&S) -> A,
    P: Fn(S, A) -> S,
{
    let k = |x: &str| format!("lens.{kind}.{x}");
    cx.case(&format!("lens.{kind}"), &(s, vals), vals.iter().any(|v| *v != rget(s)), || format!("{s:?} set to {vals:?}"));
    let c = || format!("{kind} on {s:?} with {vals:?}");
    let Some(cur) = cx.guard(&k("get"), c, || l.get(s)) else { return };
    cx.eq(&k("get"), &cur, &rget(s), c);
    let mut all = vals.to_vec();
    all.push(cur.clone());
    for v in &all {
        let want = rset(s, v);
        for (nm, always) in [("set", false), ("set_always", true)] {
            sets.set(0);
            let Some(got) = cx.guard(&k(nm), c, || if always { l.set_always(s.clone(), v.clone()) } else { l.set(s.clone(), v.clone()) })
            else {
                continue;
            };
            let n = sets.get();
            // what you set is what you get, and nothing else moves
            cx.eq(&k(nm), &got, &want, c);
            cx.eq(&k(&format!("{nm}.then_get")), &l.get(&got), v, c);
            if !always && *v == cur {
                cx.eq(&k("set.unchanged.calls"), &n, &0, c);
            } else {
                cx.eq(&k(&format!("{nm}.calls")), &n, &1, c);
            }
            // last set wins
            for w in &all {
                let both = if always { l.set_always(got.clone(), w.clone()) } else { l.set(got.clone(), w.clone()) };
                cx.eq(&k(&format!("{nm}.last_wins")), &both, &rset(s, w), c);
            }
        }
        // modify by a constant and by the identity
        for (nm, always) in [("modify", false), ("modify_always", true)] {
            for ident in [false, true] {
                let seen: Log<A> = Log::new();
                let f = |a: A| {
                    seen.add(a.clone());
                    if ident { a } else { v.clone() }
                };
                sets.set(0);
                let Some(got) =
                    cx.guard(&k(nm), c, || if always { l.modify_always(s.clone(), f) } else { l.modify(s.clone(), f) })
                else {
                    continue;
                };
                let n = sets.get();
                cx.eq(&k(nm), &got, if ident { s } else { &want }, c);
                cx.eq(&k(&format!("{nm}.calls")), &seen.take(), &vec![cur.clone()], c);
                let unchanged = !always && (ident || *v == cur);
                cx.eq(&k(&format!("{nm}.sets")), &n, &(if unchanged { 0 } else { 1 }), c);
            }
        }
    }
}
fn lenses(cx: &mut Ctx, r: &mut Rng) {
    let s = rec(r);
    let sets = &Cell::new(0u64);
    let hit = || sets.set(sets.get() + 1);
    macro_rules! lens {
        ($g:expr, $p:expr) => {
            Lens::new($g, move |mut s: Rec, v| {
                hit();
                let p: fn(&mut Rec, _) = $p;
                p(&mut s, v);
                s
            })
        };
    }
    let ints: Vec<i64> = (0..1 + r.below(3)).map(|_| r.small()).collect();
    let strs: Vec<String> = (0..1 + r.below(2)).map(|_| r.string()).collect();
    let la = || lens!(|s: &Rec| s.a, |s, v| s.a = v);
    let ls = || lens!(|s: &Rec| s.s.clone(), |s, v| s.s = v);
    let lv = || lens!(|s: &Rec| s.v.clone(), |s, v: Vec<i64>| s.v = v);
    let li = || lens!(|s: &Rec| (*s.inner).clone(), |s, v: Inner| *s.inner = v);
    let lx = || lens!(|s: &Rec| s.inner.x, |s, v| s.inner.x = v);
    let lz = || lens!(|s: &Rec| s.inner.z, |s, v| s.inner.z = v);
    let set = |s: &Rec, f: &dyn Fn(&mut Rec)| {
        let mut s = s.clone();
        f(&mut s);
        s
    };
    match r.below(11) {
        0 => lens_laws(cx, "int", &la(), &s, &ints, |s| s.a, |s, v| set(s, &|s| s.a = *v), sets),
        1 => lens_laws(cx, "string", &ls(), &s, &strs, |s| s.s.clone(), |s, v| set(s, &|s| s.s = v.clone()), sets),
        2 => lens_laws(cx, "vec", &lv(), &s, &[r.vec_tail(4), vec![]], |s| s.v.clone(), |s, v| set(s, &|s| s.v = v.clone()), sets),
        3 => lens_laws(cx, "record", &li(), &s, &[inner(r), inner(r)], |s| (*s.inner).clone(), |s, v| set(s, &|s| *s.inner = v.clone()), sets),
        4 => lens_laws(cx, "deep", &lx(), &s, &ints, |s| s.inner.x, |s, v| set(s, &|s| s.inner.x = *v), sets),
        5 => lens_laws(cx, "option", &lz(), &s, &[None, Some(r.small())], |s| s.inner.z, |s, v| set(s, &|s| s.inner.z = *v), sets),
        // mapped along a bijection, once and twice
        6 => {
            let d = r.small();
            let l = la().fmap(move |x| x + d, move |x: i64| x - d);
            lens_laws(cx, "fmap", &l, &s, &ints, move |s| s.a + d, move |s, v| set(s, &|s| s.a = *v - d), sets)
        },
        7 => {
            let (d, e) = (r.small(), r.small());
            let l = lx().fmap(move |x| -(x + d), move |x: i64| -x - d).fmap(move |x| format!("{}", x ^ e), move |x: String| x.parse::<i64>().unwrap_or(0) ^ e);
            let vals: Vec<String> = ints.iter().map(|i| i.to_string()).collect();
            lens_laws(
                cx,
                "fmap2",
                &l,
                &s,
                &vals,
                move |s| format!("{}", -(s.inner.x + d) ^ e),
                move |s, v| set(s, &|s| s.inner.x = -(v.parse::<i64>().unwrap_or(0) ^ e) - d),
                sets,
            )
        },
        8 => {
            // fmap onto the reversed list
            let l = lv().fmap(|mut v| {
                v.reverse();
                v
            }, |mut v: Vec<i64>| {
                v.reverse();
                v
            });
            let rev = |v: &Vec<i64>| v.iter().rev().copied().collect::<Vec<_>>();
            lens_laws(cx, "fmap.rev", &l, &s, &[r.vec_small(4)], |s| rev(&s.v), |s, v| set(s, &|s| s.v = rev(v)), sets)
        },
        9 => {
            // composition of lenses written through get and set
            let (o, i) = (li(), Lens::new(|i: &Inner| i.y.clone(), |mut i: Inner, y| {
                i.y = y;
                i
            }));
            let l = Lens::new(|s: &Rec| i.get(&o.get(s)), |s: Rec, v: String| {
                let inn = o.get(&s);
                o.set_always(s, i.set(inn, v))
            });
            lens_laws(cx, "composed", &l, &s, &strs, |s| s.inner.y.clone(), |s, v| set(s, &|s| s.inner.y = v.clone()), sets)
        },
        _ => {
            // equality by key: setting an equal value keeps the structure that is there
            let kid = |r: &mut Rng| Keyed(r.range(0, 2), r.u64());
            let s0 = (kid(r), r.small());
            let v = kid(r);
            let l = Lens::new(|s: &(Keyed, i64)| s.0.clone(), |s: (Keyed, i64), v| (v, s.1));
            cx.case("lens.keyed", &(&s0, &v), s0.0 == v, || format!("{s0:?} {v:?}"));
            let id = |s: &(Keyed, i64)| (s.0.0, s.0.1, s.1);
            let c = || format!("{s0:?} <- {v:?}");
            let keep = if s0.0 == v { id(&s0) } else { (v.0, v.1, s0.1) };
            cx.eq("lens.keyed.set", &id(&l.set(s0.clone(), v.clone())), &keep, c);
            cx.eq("lens.keyed.modify", &id(&l.modify(s0.clone(), |_| v.clone())), &keep, c);
            cx.eq("lens.keyed.set_always", &id(&l.set_always(s0.clone(), v.clone())), &(v.0, v.1, s0.1), c);
            cx.eq("lens.keyed.modify_always", &id(&l.modify_always(s0.clone(), |_| v.clone())), &(v.0, v.1, s0.1), c);
        },
    }
}

// ------------------------------------------------------------------ prisms
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Shape {
    Circle(i64),
    Named(String),
    Rect(i64, String),
    List(Vec<i64>),
    Empty,
}
fn shape(r: &mut Rng) -> Shape {
    match r.below(5) {
        0 => Shape::Circle(r.small()),
        1 => Shape::Named(r.string()),
        2 => Shape::Rect(r.small(), r.string()),
        3 => Shape::List(r.vec_small(4)),
        _ => Shape::Empty,
    }
}
fn prism_laws<S, A, P, R>(
    cx: &mut Ctx, kind: &str, p: &Prism<S, A, P, R>, s: &S, a: &A, rprev: impl Fn(&S) -> Option<A>, rrev: impl Fn(&A) -> S,
) where
    S: Clone + Debug + PartialEq + Hash,
    A: Clone + Debug + PartialEq + Hash,
    P: Fn(&S) -> Option<A>,
    R: Fn(&A) -> S,
{
    let k = |x: &str| format!("prism.{kind}.{x}");
    let cur = rprev(s);
    cx.case(&format!("prism.{kind}.{}", if cur.is_some() { "hit" } else { "miss" }), &(s, a), true, || format!("{s:?} with {a:?}"));
    let c = || format!("{kind} on {s:?} with {a:?}");
    let Some((pv, rv)) = cx.guard(&k("basic"), c, || (p.preview(s), p.review(a))) else { return };
    cx.eq(&k("preview"), &pv, &cur, c);
    cx.eq(&k("review"), &rv, &rrev(a), c);
    cx.eq(&k("preview_review"), &p.preview(&rv).as_ref(), &Some(a), c);
    if let Some(x) = &pv {
        cx.eq(&k("review_preview"), &p.review(x), s, c);
    }
    for ident in [false, true] {
        let seen: Log<A> = Log::new();
        let f = |x: A| {
            seen.add(x.clone());
            if ident { x } else { a.clone() }
        };
        if let Some(got) = cx.guard(&k("modify"), c, || p.modify(s.clone(), f)) {
            let want = if cur.is_some() && !ident { rrev(a) } else { s.clone() };
            cx.eq(&k("modify"), &got, &want, c);
            cx.eq(&k("modify.calls"), &seen.take(), &cur.iter().cloned().collect::<Vec<_>>(), c);
        }
    }
    let mut vals = vec![a.clone()];
    vals.extend(cur.clone());
    for v in vals {
        if let Some(got) = cx.guard(&k("set_if_different"), c, || p.set_if_different(s.clone(), v.clone())) {
            cx.eq(&k("set_if_different"), &got, &rrev(&v), c);
            cx.eq(&k("set_if_different.preview"), &p.preview(&got).as_ref(), &Some(&v), c);
        }
    }
}
fn prisms(cx: &mut Ctx, r: &mut Rng) {
    let s = shape(r);
    match r.below(7) {
        0 => {
            let g = |s: &Shape| if let Shape::Circle(x) = s { Some(*x) } else { None };
            let b = |x: &i64| Shape::Circle(*x);
            prism_laws(cx, "circle", &Prism::new(g, b), &s, &r.small(), g, b)
        },
        1 => {
            let g = |s: &Shape| if let Shape::Named(x) = s { Some(x.clone()) } else { None };
            let b = |x: &String| Shape::Named(x.clone());
            let p = Prism::for_case::<(), ()>(g, b);
            prism_laws(cx, "named", &p, &s, &r.string(), g, b)
        },
        2 => {
            let g = |s: &Shape| if let Shape::Rect(x, n) = s { Some((*x, n.clone())) } else { None };
            let b = |x: &(i64, String)| Shape::Rect(x.0, x.1.clone());
            prism_laws(cx, "rect", &Prism::new(g, b), &s, &(r.small(), r.string()), g, b)
        },
        3 => {
            let g = |s: &Shape| if let Shape::List(x) = s { Some(x.clone()) } else { None };
            let b = |x: &Vec<i64>| Shape::List(x.clone());
            prism_laws(cx, "list", &Prism::new(g, b), &s, &r.vec_tail(4), g, b)
        },
        4 => {
            let g = |s: &Shape| if let Shape::Empty = s { Some(()) } else { None };
            let b = |_: &()| Shape::Empty;
            prism_laws(cx, "unit", &Prism::new(g, b), &s, &(), g, b)
        },
        5 => {
            // an unchanged or missing focus gives back the structure itself, with everything it shares
            use std::rc::Rc;
            let (s0, v): (Result<Rc<Vec<i64>>, Rc<i64>>, Vec<i64>) = (if r.chance(2, 3) { Ok(Rc::new(r.vec_small(2))) } else { Err(Rc::new(r.small())) }, r.vec_small(2));
            let p = Prism::new(|s: &Result<Rc<Vec<i64>>, Rc<i64>>| s.as_ref().ok().map(|v| v.to_vec()), |v: &Vec<i64>| Ok(Rc::new(v.clone())));
            let same = |a: &Result<Rc<Vec<i64>>, Rc<i64>>| match (a, &s0) {
                (Ok(a), Ok(b)) => Rc::ptr_eq(a, b),
                (Err(a), Err(b)) => Rc::ptr_eq(a, b),
                _ => false,
            };
            let held = s0.as_ref().ok().map(|v| v.to_vec());
            let c = || format!("{s0:?} <- {v:?}");
            cx.case("prism.shared", &(&held, &v), true, c);
            cx.check("prism.shared.modify_same", same(&p.modify(s0.clone(), |x| x)), c);
            cx.check("prism.shared.modify", same(&p.modify(s0.clone(), |_| v.clone())) == held.as_ref().is_none_or(|h| *h == v), c);
            cx.check("prism.shared.set", same(&p.set_if_different(s0.clone(), v.clone())) == (held.as_ref() == Some(&v)), c);
            if let Some(h) = held {
                cx.check("prism.shared.set_same", same(&p.set_if_different(s0.clone(), h)), c);
            }
        },
        _ => {
            // equality by key: an unchanged focus keeps the original structure
            let kid = |r: &mut Rng| Keyed(r.range(0, 2), r.u64());
            let s0: Result<Keyed, i64> = if r.chance(3, 4) { Ok(kid(r)) } else { Err(r.small()) };
            let v = kid(r);
            let p = Prism::new(|s: &Result<Keyed, i64>| s.as_ref().ok().cloned(), |k: &Keyed| Ok(k.clone()));
            cx.case("prism.keyed", &(&s0, &v), s0.as_ref() == Ok(&v), || format!("{s0:?} {v:?}"));
            let id = |s: &Result<Keyed, i64>| s.as_ref().map(|k| (k.0, k.1)).map_err(|e| *e);
            let c = || format!("{s0:?} <- {v:?}");
            let same = s0.as_ref() == Ok(&v);
            let set = if same { id(&s0) } else { Ok((v.0, v.1)) };
            cx.eq("prism.keyed.set_if_different", &id(&p.set_if_different(s0.clone(), v.clone())), &set, c);
            let md = if same || s0.is_err() { id(&s0) } else { Ok((v.0, v.1)) };
            cx.eq("prism.keyed.modify", &id(&p.modify(s0.clone(), |_| v.clone())), &md, c);
        },
    }
}

// ------------------------------------------------------------------ isomorphisms
/// x -> sgn*x + d on the whole of i64 (wrapping): a bijection
#[derive(Clone, Debug, Hash, PartialEq)]
struct Aff(bool, i64);
impl Iso<i64, i64> for Aff {
    type From = i64;
    type To = i64;
    fn forward(&self, x: &i64) -> i64 {
        let x = if self.0 { x.wrapping_neg() } else { *x };
        x.wrapping_add(self.1)
    }
    fn backward(&self, y: &i64) -> i64 {
        let y = y.wrapping_sub(self.1);
        if self.0 { y.wrapping_neg() } else { y }
    }
}
/// rotation by an odd multiplication: does not commute with Aff
#[derive(Clone, Debug, Hash, PartialEq)]
struct Rot(u32);
impl Iso<i64, i64> for Rot {
    type From = i64;
    type To = i64;
    fn forward(&self, x: &i64) -> i64 {
        x.rotate_left(self.0)
    }
    fn backward(&self, y: &i64) -> i64 {
        y.rotate_right(self.0)
    }
}
#[derive(Clone, Debug)]
struct ToStr;
impl Iso<i64, String> for ToStr {
    type From = i64;
    type To = String;
    fn forward(&self, x: &i64) -> String {
        format!("{x}")
    }
    fn backward(&self, y: &String) -> i64 {
        y.parse().unwrap_or(0)
    }
}
/// not an isomorphism: forgets the sign
#[derive(Clone)]
struct Abs;
impl Iso<i64, i64> for Abs {
    type From = i64;
    type To = i64;
    fn forward(&self, x: &i64) -> i64 {
        x.abs()
    }
    fn backward(&self, y: &i64) -> i64 {
        *y
    }
}
/// section/retraction one way round only: forward(backward) is not the identity
#[derive(Clone)]
struct Dbl;
impl Iso<i64, i64> for Dbl {
    type From = i64;
    type To = i64;
    fn forward(&self, x: &i64) -> i64 {
        x * 2
    }
    fn backward(&self, y: &i64) -> i64 {
        y.div_euclid(2)
    }
}
/// two unrelated maps over four values
#[derive(Clone, Debug)]
struct Tab(u64);
impl Iso<u8, u8> for Tab {
    type From = u8;
    type To = u8;
    fn forward(&self, x: &u8) -> u8 {
        (self.0 >> (2 * x)) as u8 & 3
    }
    fn backward(&self, x: &u8) -> u8 {
        (self.0 >> (16 + 2 * x)) as u8 & 3
    }
}
fn iso_laws<A, B, I>(cx: &mut Ctx, kind: &str, iso: &I, a: &A, b: &B, fw: impl Fn(&A) -> B, bw: impl Fn(&B) -> A, key: &impl Hash)
where
    I: Iso<A, B, From = A, To = B>,
    A: Clone + Debug + PartialEq + Hash,
    B: Clone + Debug + PartialEq + Hash,
{
    let k = |x: &str| format!("iso.{kind}.{x}");
    cx.case(&format!("iso.{kind}"), &(a, b, hash_of(key)), true, || format!("{a:?} / {b:?}"));
    let c = || format!("{kind} at {a:?} / {b:?}");
    let Some((f, g)) = cx.guard(&k("run"), c, || (iso.forward(a), iso.backward(b))) else { return };
    cx.eq(&k("forward"), &f, &fw(a), c);
    cx.eq(&k("backward"), &g, &bw(b), c);
    cx.eq(&k("there_and_back"), &iso.backward(&f), a, c);
    cx.eq(&k("back_and_there"), &iso.forward(&g), b, c);
    cx.eq(&k("convert_forward"), &iso.convert_forward(a), &f, c);
    cx.eq(&k("convert_backward"), &iso.convert_backward(b), &g, c);
    cx.eq(&k("verify_laws"), &iso.verify_laws(a, b), &true, c);
    let (ft, fs) = (iso.map_from_target(|t| (t.clone(), 1)), iso.map_from_source(|t| (t.clone(), 1)));
    cx.eq(&k("map_from_target"), &(ft(a), ft(&g), ft(a)), &((f.clone(), 1), (b.clone(), 1), (f.clone(), 1)), c);
    cx.eq(&k("map_from_source"), &(fs(b), fs(&f), fs(b)), &((g.clone(), 1), (a.clone(), 1), (g.clone(), 1)), c);
    let seen: Log<B> = Log::new();
    let m = IsoExt::modify(iso, a, |x| {
        seen.add(x);
        b.clone()
    });
    cx.eq(&k("modify"), &m, &g, c);
    cx.eq(&k("modify.calls"), &seen.take(), &vec![f.clone()], c);
    cx.eq(&k("modify.id"), &IsoExt::modify(iso, a, |x| x), a, c);
}
fn isos(cx: &mut Ctx, r: &mut Rng) {
    let big = |r: &mut Rng| if r.chance(1, 4) { r.u64() as i64 } else { r.small() };
    let (a, b) = (big(r), big(r));
    let i = Aff(r.chance(1, 2), big(r));
    let j = Rot(r.below(64) as u32);
    let l = Aff(r.chance(1, 2), big(r));
    let key = (i.clone(), j.clone(), l.clone());
    match r.below(7) {
        0 => iso_laws(cx, "plain", &i, &a, &b, |x| i.forward(x), |y| i.backward(y), &key),
        1 => {
            let co = i.iso_compose(j.clone());
            iso_laws(cx, "composed", &co, &a, &b, |x| j.forward(&i.forward(x)), |y| i.backward(&j.backward(y)), &key)
        },
        2 => iso_laws(cx, "inverse", &i.inverse(), &a, &b, |x| i.backward(x), |y| i.forward(y), &key),
        3 => {
            // associativity of composition
            let right = i.iso_compose(j.iso_compose(l.clone()));
            let fw = |x: &i64| l.forward(&j.forward(&i.forward(x)));
            let bw = |y: &i64| i.backward(&j.backward(&l.backward(y)));
            iso_laws(cx, "composed3", &right, &a, &b, fw, bw, &key);
            let s = right.forward(&a);
            cx.eq("iso.composed3.assoc", &l.forward(&i.iso_compose(j.clone()).forward(&a)), &s, || format!("{key:?} {a}"));
        },
        4 => {
            // composing with one's inverse is the identity
            let co = i.iso_compose(i.inverse());
            iso_laws(cx, "cancel", &co, &a, &b, |x| *x, |y| *y, &key)
        },
        5 => {
            let co = i.iso_compose(ToStr);
            iso_laws(cx, "to_string", &co, &a, &b.to_string(), |x| i.forward(x).to_string(), |y| i.backward(&y.parse().unwrap_or(0)), &key)
        },
        _ => {
            // verify_laws notices unlawful pairs
            cx.case("iso.unlawful", &(a, b), true, || format!("{a} {b}"));
            let (a, b) = (a % 1000, b % 1000);
            cx.eq("iso.verify_laws.unlawful.from", &Abs.verify_laws(&a, &b.abs()), &(a >= 0), || format!("abs at {a} / {}", b.abs()));
            let t = Tab(r.u64());
            let (x, y) = (r.below(4) as u8, r.below(4) as u8);
            let want = t.backward(&t.forward(&x)) == x && t.forward(&t.backward(&y)) == y;
            cx.eq("iso.verify_laws.table", &t.verify_laws(&x, &y), &want, || format!("{t:?} at {x} / {y}"));
            cx.eq("iso.verify_laws.unlawful.to", &Dbl.verify_laws(&a, &b), &(b % 2 == 0), || format!("double at {a} / {b}"));
        },
    }
}
fn carrier_isos(cx: &mut Ctx, r: &mut Rng) {
    let res = |r: &mut Rng| -> Result<i64, String> { if r.chance(1, 2) { Ok(r.small()) } else { Err(r.string()) } };
    let (x, y) = (res(r), res(r));
    let e = |x: &Result<i64, String>| match x {
        Ok(v) => Either::<String, i64>::Right(*v),
        Err(e) => Either::Left(e.clone()),
    };
    let v = |x: &Result<i64, String>| match x {
        Ok(v) => Validated::<String, i64>::valid(*v),
        Err(e) => Validated::invalid(e.clone()),
    };
    let c = || format!("{x:?} / {y:?}");
    cx.case("iso.carrier", &(&x, &y), true, c);
    cx.eq("iso.result_either.forward", &ResultEitherIso.forward(&x), &e(&x), c);
    cx.eq("iso.result_either.backward", &ResultEitherIso.backward(&e(&x)), &x, c);
    cx.eq("iso.result_either.laws", &ResultEitherIso.verify_laws(&x, &e(&y)), &true, c);
    cx.eq("iso.result_validated.forward", &ResultValidatedIso.forward(&x), &v(&x), c);
    cx.eq("iso.result_validated.backward", &ResultValidatedIso.backward(&v(&x)), &x, c);
    cx.eq("iso.result_validated.laws", &ResultValidatedIso.verify_laws(&x, &v(&y)), &true, c);
    let m = ResultEitherIso.modify(&x, |w| if w == e(&x) { e(&y) } else { w });
    cx.eq("iso.result_either.modify", &m, &y, c);
    let m = ResultValidatedIso.modify(&x, |w| if w == v(&x) { v(&y) } else { w });
    cx.eq("iso.result_validated.modify", &m, &y, c);
}

// ------------------------------------------------------------------ IsoLens / IsoPrism
#[derive(Clone, Debug, PartialEq)]
struct RecTuple;
type Tup = (i64, String, Vec<i64>, (i64, bool), Inner);
fn tup(s: &Rec) -> Tup {
    (s.a, s.s.clone(), s.v.clone(), s.t, (*s.inner).clone())
}
fn untup(t: &Tup) -> Rec {
    Rec { a: t.0, s: t.1.clone(), v: t.2.clone(), t: t.3, inner: Box::new(t.4.clone()) }
}
impl Iso<Rec, Tup> for RecTuple {
    type From = Rec;
    type To = Tup;
    fn forward(&self, s: &Rec) -> Tup {
        tup(s)
    }
    fn backward(&self, t: &Tup) -> Rec {
        untup(t)
    }
}
/// focus on `a`, keeping the record as context
#[derive(Clone, Debug, PartialEq)]
struct FocusA;
impl Iso<Rec, (i64, Rec)> for FocusA {
    type From = Rec;
    type To = (i64, Rec);
    fn forward(&self, s: &Rec) -> (i64, Rec) {
        (s.a, s.clone())
    }
    fn backward(&self, t: &(i64, Rec)) -> Rec {
        Rec { a: t.0, ..t.1.clone() }
    }
}
/// second stage: from the tuple form to (inner, record)
#[derive(Clone, Debug, PartialEq)]
struct TupInner;
impl Iso<Tup, (Inner, Rec)> for TupInner {
    type From = Tup;
    type To = (Inner, Rec);
    fn forward(&self, t: &Tup) -> (Inner, Rec) {
        (t.4.clone(), untup(t))
    }
    fn backward(&self, t: &(Inner, Rec)) -> Tup {
        let mut x = tup(&t.1);
        x.4 = t.0.clone();
        x
    }
}
/// splits a list into one element and what remains without it
#[derive(Clone, Debug, PartialEq)]
struct TakeAt(usize);
impl Iso<Vec<i64>, (Option<i64>, Vec<i64>)> for TakeAt {
    type From = Vec<i64>;
    type To = (Option<i64>, Vec<i64>);
    fn forward(&self, v: &Vec<i64>) -> (Option<i64>, Vec<i64>) {
        let mut v = v.clone();
        if self.0 < v.len() { (Some(v.remove(self.0)), v) } else { (None, v) }
    }
    fn backward(&self, t: &(Option<i64>, Vec<i64>)) -> Vec<i64> {
        let mut v = t.1.clone();
        if let Some(x) = t.0 {
            v.insert(self.0.min(v.len()), x);
        }
        v
    }
}
/// a context that is not the structure itself: only what the isomorphism handed out goes back in
fn focus_rest(cx: &mut Ctx, r: &mut Rng) {
    let n = r.below(6);
    let v: Vec<i64> = (0..n).map(|_| r.small()).collect();
    let (at, f, d) = (r.below(7), Fun::gen_(r), r.small());
    let iso = TakeAt(at);
    let c = || format!("{v:?} at {at} {f:?} {d}");
    cx.case("iso_lens_rest", &(&v, at, f), n > 1, c);
    let g = |o: Option<i64>| o.map(|x| f.ap(x));
    let l: IsoLens<Vec<i64>, (Option<i64>, Vec<i64>), TakeAt> = IsoLens::new(iso.clone());
    let (x, rest) = iso.forward(&v);
    cx.eq("iso_lens.rest.get", &l.get(&v), &(x, rest.clone()), c);
    cx.eq("iso_lens.rest.set", &l.set(&(Some(d), rest.clone())), &iso.backward(&(Some(d), rest.clone())), c);
    cx.eq("iso_lens.rest.modify", &l.modify(&v, |(x, rest)| (g(x), rest)), &iso.backward(&(g(x), rest.clone())), c);
    let seen: Log<Option<i64>> = Log::new();
    let m = l.modify_focus(&v, |x| {
        seen.add(x);
        g(x)
    });
    cx.eq("iso_lens.rest.modify_focus", &m, &iso.backward(&(g(x), rest.clone())), c);
    cx.eq("iso_lens.rest.modify_focus.calls", &seen.take(), &vec![x], c);
    cx.eq("iso_lens.rest.modify_focus.id", &l.modify_focus(&v, |x| x), &v, c);
}
fn isolenses(cx: &mut Ctx, r: &mut Rng) {
    let (s, o) = (rec(r), rec(r));
    let c = || format!("{s:?} / {o:?}");
    cx.case("iso_lens", &(&s, &o), s != o, c);
    let once = |cx: &mut Ctx, sig: &str, n: usize| cx.eq(sig, &n, &1, || "calls of the modifying function".to_string());
    // whole-structure isomorphism
    let l = IsoLens::new(RecTuple);
    cx.eq("iso_lens.get", &l.get(&s), &tup(&s), c);
    cx.eq("iso_lens.set", &l.set(&tup(&o)), &o, c);
    cx.eq("iso_lens.get_set", &l.get(&l.set(&tup(&o))), &tup(&o), c);
    cx.eq("iso_lens.set_get", &l.set(&l.get(&s)), &s, c);
    cx.eq("iso_lens.iso_ref", &l.iso_ref().forward(&s), &tup(&s), c);
    let seen: Log<Tup> = Log::new();
    let m = l.modify(&s, |t| {
        seen.add(t.clone());
        (t.0 + 1, o.s.clone(), t.2, t.3, t.4)
    });
    cx.eq("iso_lens.modify", &m, &Rec { a: s.a + 1, s: o.s.clone(), ..s.clone() }, c);
    once(cx, "iso_lens.modify.calls", seen.take().len());
    // focus with context
    let f = IsoLens::new(FocusA);
    let v = r.small();
    cx.eq("iso_lens.focus.get", &f.get(&s), &(s.a, s.clone()), c);
    let set = f.set_focus(&s, &v);
    cx.eq("iso_lens.set_focus", &set, &Rec { a: v, ..s.clone() }, c);
    cx.eq("iso_lens.set_focus.get", &f.get(&set).0, &v, c);
    cx.eq("iso_lens.set_focus.same", &f.set_focus(&s, &s.a), &s, c);
    cx.eq("iso_lens.set_focus.last", &f.set_focus(&set, &o.a), &Rec { a: o.a, ..s.clone() }, c);
    let seen: Log<i64> = Log::new();
    let m = f.modify_focus(&s, |x| {
        seen.add(x);
        v
    });
    cx.eq("iso_lens.modify_focus", &m, &set, c);
    cx.eq("iso_lens.modify_focus.calls", &seen.take(), &vec![s.a], c);
    cx.eq("iso_lens.modify_focus.id", &f.modify_focus(&s, |x| x), &s, c);
    // composed
    let g = IsoLens::new(RecTuple).compose(IsoLens::new(TupInner));
    cx.eq("iso_lens.compose.get", &g.get(&s), &((*s.inner).clone(), s.clone()), c);
    let want = Rec { inner: o.inner.clone(), ..s.clone() };
    cx.eq("iso_lens.compose.set", &g.set(&((*o.inner).clone(), s.clone())), &want, c);
    cx.eq("iso_lens.compose.set_focus", &g.set_focus(&s, &o.inner), &want, c);
    cx.eq("iso_lens.compose.set_get", &g.set(&g.get(&s)), &s, c);
    let seen: Log<i64> = Log::new();
    let m = g.modify_focus(&s, |i| {
        seen.add(i.x);
        Inner { x: i.x - 7, ..i }
    });
    let mut want = s.clone();
    want.inner.x -= 7;
    cx.eq("iso_lens.compose.modify_focus", &m, &want, c);
    cx.eq("iso_lens.compose.modify_focus.calls", &seen.take(), &vec![s.inner.x], c);
}
/// Ok side of a result, with the error kept aside so that the pair is an isomorphism on hits
#[derive(Clone, Debug, PartialEq)]
struct OkP;
type In2 = Option<i64>;
type Out1 = Option<In2>;
impl Iso<Out1, Option<In2>> for OkP {
    type From = Out1;
    type To = Option<In2>;
    fn forward(&self, x: &Out1) -> Option<In2> {
        *x
    }
    fn backward(&self, x: &Option<In2>) -> Out1 {
        *x
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Neg;
impl Iso<In2, Option<String>> for Neg {
    type From = In2;
    type To = Option<String>;
    fn forward(&self, x: &In2) -> Option<String> {
        x.map(|v| format!("n{v}"))
    }
    fn backward(&self, x: &Option<String>) -> In2 {
        x.as_ref().and_then(|s| s[1..].parse().ok())
    }
}
fn isoprisms(cx: &mut Ctx, r: &mut Rng) {
    let gen_ = |r: &mut Rng| -> Out1 { if r.chance(1, 3) { None } else { Some(if r.chance(1, 3) { None } else { Some(r.small()) }) } };
    let s = gen_(r);
    let (a, v) = (gen_(r).unwrap_or(None), r.small());
    let c = || format!("{s:?} / {a:?} / {v}");
    cx.case("iso_prism", &(&s, &a, v), s.is_some(), c);
    let p = IsoPrism::new(OkP);
    cx.eq("iso_prism.preview", &p.preview(&s), &s, c);
    cx.eq("iso_prism.review", &p.review(&a), &Some(a), c);
    cx.eq("iso_prism.preview_review", &p.preview(&p.review(&a)), &Some(a), c);
    let q = IsoPrism::new(OkP).compose(IsoPrism::new(Neg));
    let n = format!("n{v}");
    cx.eq("iso_prism.compose.preview", &q.preview(&s), &s.flatten().map(|v| format!("n{v}")), c);
    cx.eq("iso_prism.compose.review", &q.review(&n), &Some(Some(v)), c);
    cx.eq("iso_prism.compose.preview_review", &q.preview(&q.review(&n)), &Some(n.clone()), c);
    if let Some(x) = q.preview(&s) {
        cx.eq("iso_prism.compose.review_preview", &q.review(&x), &s, c);
    }
}

fn main() {
    main_with("C25", |cx| {
        cx.rule = "an optic (built from lawful parts), a structure and the values set, counted once per distinct combination; lens cases only when some value differs from the present one".into();
        mon::shapes::rounds(cx);
        cx.assumptions = vec!["optics are built from lawful get/set, preview/review and forward/backward pairs".into()];
        for k in ["cases.lens.int", "cases.lens.fmap2", "cases.lens.composed", "cases.lens.keyed", "cases.prism.circle.hit", "cases.prism.rect.miss", "cases.prism.keyed", "cases.prism.shared", "cases.iso.composed3", "cases.iso.inverse", "cases.iso.unlawful", "cases.iso_lens", "cases.iso_prism", "cases.iso.carrier"] {
            cx.require(k, 100);
        }
        let mut r = cx.rng.split();
        mon::worn::lens(cx, &mut r);
        mon::worn::prism(cx, &mut r);
        cx.require("worn_runs", 4_000);
        let n = cx.n(40_000, 4_000_000);
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                lenses(cx, &mut r);
                prisms(cx, &mut r);
                isos(cx, &mut r);
                match r.below(3) {
                    0 => {
                        isolenses(cx, &mut r);
                        focus_rest(cx, &mut r);
                    },
                    1 => isoprisms(cx, &mut r),
                    _ => carrier_isos(cx, &mut r),
                }
            }
        });
    });
}
