use mon::*;
use rustica::datatypes::validated::Validated;
use rustica::error::{collect_errors, split_validated_errors, validated_to_result};
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::functor::Functor;
use rustica::traits::hkt::BinaryHKT;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::semigroup::Semigroup;
use rustica::utils::error_utils::{WithError, traverse_validated};
use smallvec::SmallVec;
use std::cell::Cell;

type V<T> = Validated<String, T>;
type R<T> = Result<T, Vec<String>>; // the model

fn mk<T: Clone>(m: &R<T>) -> V<T> {
    match m {
        Ok(x) => Validated::Valid(x.clone()),
        Err(e) => Validated::Invalid(SmallVec::from_vec(e.clone())),
    }
}
fn view<T: Clone>(v: &V<T>) -> R<T> {
    match v {
        Validated::Valid(x) => Ok(x.clone()),
        Validated::Invalid(e) => Err(e.to_vec()),
    }
}
thread_local!(static NEXT: Cell<u64> = const { Cell::new(0) });
thread_local!(static POOL: Cell<u64> = const { Cell::new(u64::MAX) });
fn fresh() -> String {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        format!("e{}", mix(n.get()) % POOL.get())
    })
}
/// Usually every error is a fresh name, so loss, duplication and reordering are all visible;
/// now and then names come from a small pool, so that equal errors meet.
fn gen_v(r: &mut Rng, valid: usize) -> R<i64> {
    if r.chance(valid, 10) {
        Ok(r.small())
    } else {
        let n = match r.below(12) {
            0 => 0,
            1..=5 => 1,
            6 => 4,
            7 => 8,
            8 => 9,
            9 if r.chance(1, 20) => 100 + r.below(300),
            _ => 1 + r.below(20),
        };
        Err((0..n).map(|_| fresh()).collect())
    }
}
fn errs(ms: &[&R<i64>]) -> Vec<String> {
    ms.iter().filter_map(|m| m.as_ref().err()).flatten().cloned().collect()
}
fn acc<T>(ms: &[&R<i64>], v: impl FnOnce(Vec<i64>) -> T) -> R<T> {
    if ms.iter().all(|m| m.is_ok()) { Ok(v(ms.iter().map(|m| *m.as_ref().unwrap()).collect())) } else { Err(errs(ms)) }
}

fn main() {
    main_with("C13", |cx| {
        cx.rule = "a case is a list of validated values whose errors all have fresh names plus function codes; every combining, mapping, collecting, recovering and converting operation is compared with a list model. \
                   Distinct by (operation group, shape of the operands)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(200_000, 12_000_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                POOL.set(if r.chance(1, 4) { 3 } else { u64::MAX });
                NEXT.with(|n| n.set(0));
                pairs(cx, &mut r);
                NEXT.with(|n| n.set(0));
                many(cx, &mut r);
                NEXT.with(|n| n.set(0));
                single(cx, &mut r);
                NEXT.with(|n| n.set(0));
                build(cx, &mut r);
            }
        });
        cx.require("spilled_errors", 1000);
        cx.require("all_invalid", 500);
        cx.require("empty_invalid", 500);
    });
}
fn tally(cx: &mut Ctx, ms: &[&R<i64>]) {
    if errs(ms).len() > 8 {
        cx.count("spilled_errors", 1);
    }
    if ms.iter().all(|m| m.is_err()) {
        cx.count("all_invalid", 1);
    }
    if ms.iter().any(|m| matches!(m, Err(e) if e.is_empty())) {
        cx.count("empty_invalid", 1);
    }
}
fn pairs(cx: &mut Ctx, r: &mut Rng) {
    let p = *r.pick(&[3usize, 7, 9]);
    let (a, b, d) = (gen_v(r, p), gen_v(r, p), gen_v(r, p));
    let f = Fun::gen_(r);
    let c = || format!("a={a:?} b={b:?} d={d:?} f={f:?}");
    tally(cx, &[&a, &b, &d]);
    let (va, vb, vd) = (mk(&a), mk(&b), mk(&d));
    let w2 = acc(&[&a, &b], |v| f.ap2(v[0], v[1]));
    let w3 = acc(&[&a, &b, &d], |v| f.ap3(v[0], v[1], v[2]));
    let fa: R<Fun> = match &a {
        Ok(x) => Ok(Fun((*x as u64) & 0xff)),
        Err(e) => Err(e.clone()),
    };
    let wap = acc(&[&a, &b], |v| Fun((v[0] as u64) & 0xff).ap(v[1]));
    if let Some((l2, l2o, l3, l3o, ap, apo, sr, sl, sro, slo, ap2)) = cx.guard("lift", c, || {
        let ff = match &fa {
            Ok(g) => {
                let g = *g;
                Validated::<String, _>::Valid(move |x: &i64| g.ap(*x))
            },
            Err(e) => Validated::Invalid(SmallVec::from_vec(e.clone())),
        };
        let ffo = match &fa {
            Ok(g) => {
                let g = *g;
                Validated::<String, _>::Valid(move |x: i64| g.ap(x))
            },
            Err(e) => Validated::Invalid(SmallVec::from_vec(e.clone())),
        };
        (
            view(&V::<i64>::lift2(|x: &i64, y: &i64| f.ap2(*x, *y), &va, &vb)),
            view(&V::<i64>::lift2_owned(|x: i64, y: i64| f.ap2(x, y), va.clone(), vb.clone())),
            view(&V::<i64>::lift3(|x: &i64, y: &i64, z: &i64| f.ap3(*x, *y, *z), &va, &vb, &vd)),
            view(&V::<i64>::lift3_owned(|x: i64, y: i64, z: i64| f.ap3(x, y, z), va.clone(), vb.clone(), vd.clone())),
            view(&ff.apply::<i64, i64>(&vb)),
            view(&ffo.apply_owned::<i64, i64>(vb.clone())),
            view(&V::<i64>::sequence_right(&va, &vb)),
            view(&V::<i64>::sequence_left(&va, &vb)),
            view(&V::<i64>::sequence_right_owned(va.clone(), vb.clone())),
            view(&V::<i64>::sequence_left_owned(va.clone(), vb.clone())),
            view(&V::<i64>::ap2(|x: &i64, y: &i64| f.ap2(*x, *y), &va, &vb)),
        )
    }) {
        cx.eq("lift2", &(&l2, &l2o, &ap2), &(&w2, &w2, &w2), c);
        cx.eq("lift3", &l3, &w3, c);
        cx.eq("lift3_owned", &l3o, &w3, c);
        cx.eq("apply", &(&ap, &apo), &(&wap, &wap), c);
        let (wr, wl) = (acc(&[&a, &b], |v| v[1]), acc(&[&a, &b], |v| v[0]));
        cx.eq("sequence_right", &(&sr, &sro), &(&wr, &wr), c);
        cx.eq("sequence_left", &(&sl, &slo), &(&wl, &wl), c);
    }
    if a.is_err() || b.is_err() {
        if let Some((x, y)) = cx.guard("combine_errors", c, || (view(&va.combine_errors(&vb)), view(&va.clone().combine_errors_owned(vb.clone())))) {
            let w: R<i64> = Err(errs(&[&a, &b]));
            cx.eq("combine_errors", &(&x, &y), &(&w, &w), c);
        }
    }
    if let Some((x, xo, y, yo)) = cx.guard("mplus", c, || {
        (view(&va.mplus(&vb)), view(&va.clone().mplus_owned(vb.clone())), view(&va.combine(&vb)), view(&va.clone().combine_owned(vb.clone())))
    }) {
        let w = match (&a, &b) {
            (Ok(_), _) => a.clone(),
            (_, Ok(_)) => b.clone(),
            _ => Err(errs(&[&a, &b])),
        };
        cx.eq("mplus", &(&x, &xo), &(&w, &w), c);
        cx.eq("combine", &(&y, &yo), &(&w, &w), c);
    }
    cx.eq("pair.operands", &(view(&va), view(&vb), view(&vd)), &(a.clone(), b.clone(), d.clone()), c);
    cx.case("pairs", &(&a, &b, &d, f), true, c);
}
fn many(cx: &mut Ctx, r: &mut Rng) {
    let p = *r.pick(&[5usize, 9, 10, 10]);
    let n = if r.chance(1, 20) { 30 + r.below(40) } else { r.len_tail(10) };
    let ms: Vec<R<i64>> = (0..n).map(|_| gen_v(r, p)).collect();
    let refs: Vec<&R<i64>> = ms.iter().collect();
    let c = || format!("{ms:?}");
    tally(cx, &refs);
    let vs: Vec<V<i64>> = ms.iter().map(mk).collect();
    let want = acc(&refs, |v| v);
    let calls = Log::<usize>::new();
    if let Some((s, so, col, colo, fold, foldo, after)) = cx.guard("sequence", c, || {
        let rv: Vec<&V<i64>> = vs.iter().collect();
        (
            view(&V::<i64>::sequence(&rv, &|xs: &[i64]| {
                calls.add(xs.len());
                xs.to_vec()
            })),
            view(&V::<i64>::sequence_owned(vs.clone(), |xs: Vec<i64>| {
                calls.add(xs.len());
                xs
            })),
            view(&V::<i64>::collect::<_, Vec<i64>>(vs.clone().into_iter())),
            view(&V::<i64>::collect_owned::<_, Vec<i64>>(mon::hinted(r, vs.clone()))),
            view(&vs.iter().fold(V::valid(vec![]), |acc: V<Vec<i64>>, x| {
                V::<Vec<i64>>::lift2(
                    |v: &Vec<i64>, y: &i64| {
                        let mut v = v.clone();
                        v.push(*y);
                        v
                    },
                    &acc,
                    x,
                )
            })),
            view(&vs.iter().cloned().fold(V::valid(vec![]), |acc: V<Vec<i64>>, x| {
                V::<Vec<i64>>::lift2_owned(
                    |mut v: Vec<i64>, y: i64| {
                        v.push(y);
                        v
                    },
                    acc,
                    x,
                )
            })),
            vs.iter().map(view).collect::<Vec<_>>(),
        )
    }) {
        cx.eq("sequence", &s, &want, c);
        cx.eq("sequence_owned", &so, &want, c);
        cx.eq("collect", &col, &want, c);
        cx.eq("collect_owned", &colo, &want, c);
        cx.eq("fold_lift2", &(&fold, &foldo), &(&want, &want), c);
        cx.eq("sequence.operands", &after, &ms, c);
        let w = if want.is_ok() { vec![n, n] } else { vec![] };
        cx.eq("sequence.calls", &calls.take(), &w, c);
    }
    // other collection targets
    if let Some((set, st)) = cx.guard("collect_into", c, || {
        (
            V::<i64>::collect::<_, std::collections::BTreeSet<i64>>(vs.clone().into_iter()),
            V::<String>::collect_owned::<_, String>(vs.iter().map(|v| v.fmap(|x| format!("{x};")))),
        )
    }) {
        cx.eq("collect_into", &view(&set), &want.clone().map(|v| v.into_iter().collect()), c);
        cx.eq("collect_into", &view(&st), &want.clone().map(|v| v.iter().map(|x| format!("{x};")).collect()), c);
    }
    // accumulating traversal: every element visited, every failure kept
    let xs = r.vec_tail(14);
    let f = Fun::gen_(r);
    let g = |x: i64| if f.small(x, 3) == 0 { Err(format!("bad{x}")) } else { Ok(f.ap(x)) };
    let log = Log::new();
    if let Some((t, ce)) = cx.guard("traverse_validated", || format!("{xs:?} {f:?}"), || {
        let t = view(&traverse_validated(xs.clone(), |x| {
            log.add(x);
            g(x)
        }));
        (t, view(&collect_errors(xs.iter().filter_map(|x| g(*x).err()))))
    }) {
        let es: Vec<String> = xs.iter().filter_map(|x| g(*x).err()).collect();
        let w = if es.is_empty() { Ok(xs.iter().map(|x| g(*x).unwrap()).collect()) } else { Err(es.clone()) };
        cx.eq("traverse_validated", &t, &w, || format!("{xs:?} {f:?}"));
        cx.eq("traverse_validated.calls", &log.take(), &xs, || format!("{xs:?} {f:?}"));
        cx.eq("collect_errors", &ce, &if es.is_empty() { Ok(()) } else { Err(es) }, || format!("{xs:?} {f:?}"));
    }
    cx.case("many", &(&ms, &xs, f), n > 0, c);
}
fn single(cx: &mut Ctx, r: &mut Rng) {
    let a = gen_v(r, 3);
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    let dflt = r.small();
    let c = || format!("a={a:?} f={f:?} g={g:?} dflt={dflt}");
    tally(cx, &[&a]);
    let v = mk(&a);
    let tag = |e: &String| format!("<{e}>");
    let len = |e: &String| e.len() as i64;
    let log = Log::<String>::new();
    let lg = |e: &String| {
        log.add(e.clone());
        tag(e)
    };
    let wtag: R<i64> = a.clone().map_err(|e| e.iter().map(tag).collect());
    if let Some(outs) = cx.guard("map_errors", c, || {
        let mut o: Vec<(&str, R<i64>, Vec<String>)> = vec![];
        o.push(("fmap_invalid", view(&v.fmap_invalid(lg)), log.take()));
        o.push(("fmap_invalid_owned", view(&v.clone().fmap_invalid_owned(|e| lg(&e))), log.take()));
        o.push(("map_second", view(&v.map_second(lg)), log.take()));
        o.push(("map_second_owned", view(&v.clone().map_second_owned(|e| lg(&e))), log.take()));
        o.push(("second", view(&v.second(lg)), log.take()));
        o.push(("fmap_error", view(&v.clone().fmap_error(|e| lg(&e))), log.take()));
        o
    }) {
        for (n, got, calls) in outs {
            cx.eq(n, &got, &wtag, c);
            cx.eq(&format!("{n}.calls"), &calls, &a.clone().err().unwrap_or_default(), c);
        }
    }
    if let Some((bi, fi, fm, fmo)) = cx.guard("map_value", c, || {
        let bi = match v.bimap(|x| f.ap(*x), len) {
            Validated::Valid(x) => Ok(x),
            Validated::Invalid(e) => Err(e.to_vec()),
        };
        (bi, view(&v.first(|x| f.ap(*x))), view(&v.fmap(|x| f.ap(*x))), view(&v.clone().fmap_owned(|x| f.ap(x))))
    }) {
        let w = a.clone().map(|x| f.ap(x));
        cx.eq("bimap", &bi, &w.clone().map_err(|e| e.iter().map(len).collect::<Vec<i64>>()), c);
        cx.eq("first", &(&fi, &fm, &fmo), &(&w, &w, &w), c);
    }
    // recovery
    let rec = |e: &String| -> R<i64> {
        match g.small(hash_of(e) as i64, 5) {
            0 => Ok(e.len() as i64),
            1 => Err(vec![]),
            2 => Err(vec![format!("{e}a"), format!("{e}b")]),
            _ => Err(vec![format!("{e}!")]),
        }
    };
    let seen = Log::<String>::new();
    let seen2 = Log::<Vec<String>>::new();
    if let Some((ra, ro, rw)) = cx.guard("recover", c, || {
        (
            view(&v.clone().recover_all(|e| {
                seen.add(e.clone());
                mk(&rec(&e))
            })),
            view(&v.clone().recover_all_at_once(|es| {
                seen2.add(es.clone());
                if g.small(es.len() as i64, 2) == 0 { V::Valid(es.len() as i64) } else { V::Invalid(SmallVec::from_vec(es)) }
            })),
            view(&v.clone().recover_with(dflt)),
        )
    }) {
        let (mut wseen, mut wacc, mut wres) = (vec![], vec![], None);
        if let Err(es) = &a {
            for e in es {
                wseen.push(e.clone());
                match rec(e) {
                    Ok(x) => {
                        wres = Some(Ok(x));
                        break;
                    },
                    Err(m) => wacc.extend(m),
                }
            }
        }
        let w = if a.is_ok() { a.clone() } else { wres.unwrap_or(Err(wacc)) };
        cx.eq("recover_all", &ra, &w, c);
        cx.eq("recover_all.calls", &seen.take(), &wseen, c);
        let w = match &a {
            Ok(_) => a.clone(),
            Err(es) if g.small(es.len() as i64, 2) == 0 => Ok(es.len() as i64),
            _ => a.clone(),
        };
        cx.eq("recover_all_at_once", &ro, &w, c);
        cx.eq("recover_all_at_once.calls", &seen2.take(), &a.clone().err().into_iter().collect::<Vec<_>>(), c);
        cx.eq("recover_with", &rw, &Ok(*a.as_ref().unwrap_or(&dflt)), c);
    }
    // views
    if let Some((es, sl, it, pay, iv, ie, opt, flags, un, vi, into)) = cx.guard("views", c, || {
        (
            v.errors(),
            v.error_slice().to_vec(),
            v.iter_errors().cloned().collect::<Vec<_>>(),
            v.error_payload().map(|e| e.to_vec()),
            v.clone().into_value().map_err(|e| e.to_vec()),
            v.clone().into_error_payload().map(|e| e.to_vec()),
            v.to_option(),
            (v.is_valid(), v.is_invalid(), Validated::as_ref(&v).copied()),
            v.unwrap_or(&dflt),
            v.iter().copied().collect::<Vec<i64>>(),
            v.clone().into_iter().collect::<Vec<i64>>(),
        )
    }) {
        let e0 = a.clone().err().unwrap_or_default();
        cx.eq("errors", &(&es, &sl, &it), &(&e0, &e0, &e0), c);
        cx.eq("error_payload", &pay, &a.clone().err(), c);
        cx.eq("into_value", &iv, &a, c);
        cx.eq("into_error_payload", &ie.ok(), &a.clone().err(), c);
        cx.eq("to_option", &opt, &a.clone().ok(), c);
        cx.eq("is_valid", &flags, &(a.is_ok(), a.is_err(), a.clone().ok()), c);
        cx.eq("unwrap_or", &un, a.as_ref().unwrap_or(&dflt), c);
        let ov: Vec<i64> = a.clone().ok().into_iter().collect();
        cx.eq("iter", &(&vi, &into), &(&ov, &ov), c);
    }
    let un = quiet(|| (v.unwrap(), v.clone().unwrap_owned())).ok();
    cx.eq("unwrap", &un, &a.clone().ok().map(|x| (x, x)), c);
    let ue = quiet(|| (v.unwrap_invalid(), v.clone().unwrap_invalid_owned().to_vec())).ok();
    cx.eq("unwrap_invalid", &ue, &a.clone().err().map(|x| (x.clone(), x)), c);
    // in-place access touches exactly the contents
    if let Some((m1, m2, m3)) = cx.guard("mutate", c, || {
        let (mut a1, mut a2, mut a3) = (v.clone(), v.clone(), v.clone());
        for e in a1.iter_errors_mut() {
            e.push('~');
        }
        for x in a2.iter_mut() {
            *x += 1;
        }
        if let Some(b) = a3.error_buffer_mut() {
            b.push("new".into());
        }
        (view(&a1), view(&a2), view(&a3))
    }) {
        cx.eq("iter_errors_mut", &m1, &a.clone().map_err(|e| e.iter().map(|x| format!("{x}~")).collect()), c);
        cx.eq("iter_mut", &m2, &a.clone().map(|x| x + 1), c);
        cx.eq("error_buffer_mut", &m3, &a.clone().map_err(|e| [e, vec!["new".into()]].concat()), c);
    }
    if !matches!(&a, Err(e) if e.is_empty()) {
        if let Some((tr, tro, we, v2r, sp)) = cx.guard("to_result", c, || {
            (Validated::to_result(&v), v.clone().to_result_owned(), WithError::to_result(v.clone()), validated_to_result(v.clone()), split_validated_errors(v.clone()))
        }) {
            let w = a.clone().map_err(|e| e[0].clone());
            cx.eq("to_result", &(&tr, &tro, &we, &v2r), &(&w, &w, &w, &w), c);
            let ws: Vec<Result<i64, String>> = match &a {
                Ok(x) => vec![Ok(*x)],
                Err(e) => e.iter().map(|e| Err(e.clone())).collect(),
            };
            cx.eq("split_validated_errors", &sp, &ws, c);
        }
    }
    // bind on an invalid keeps all its errors
    let calls = Log::<i64>::new();
    if let Some((b, bo)) = cx.guard("bind", c, || {
        let k = |x: i64| {
            calls.add(x);
            mk(&if f.small(x, 2) == 0 { Ok(f.ap(x)) } else { Err(vec![format!("k{x}")]) })
        };
        (view(&v.bind(|x| k(*x))), view(&v.clone().bind_owned(k)))
    }) {
        let w = a.clone().and_then(|x| if f.small(x, 2) == 0 { Ok(f.ap(x)) } else { Err(vec![format!("k{x}")]) });
        cx.eq("bind", &(&b, &bo), &(&w, &w), c);
        cx.eq("bind.calls", &calls.take().len(), &(2 * a.is_ok() as usize), c);
    }
    // asynchronous forms, with futures that finish in another order than they start; every error is
    // mapped exactly once
    let mapped = SLog::<String>::new();
    let (nth, seen) = (std::sync::Arc::new(std::sync::atomic::AtomicI64::new(0)), mapped.clone());
    let late = move |n: i64| Later(f.small(n, 4) as u64);
    if let Some((av, ai, at)) = cx.guard("async", c, || {
        futures::executor::block_on(async {
            (
                view(&v.fmap_valid_async(move |x| async move { late(x).await; f.ap(x) }).await),
                view(
                    &v.fmap_invalid_async(move |e| {
                        seen.add(e.clone());
                        let nth = nth.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let wait = Later(g.small(nth, 5) as u64);
                        async move {
                            wait.await;
                            format!("<{e}>")
                        }
                    })
                    .await,
                ),
                view(&v.and_then_async(move |x| async move { late(x).await; mk(&if f.small(x, 2) == 0 { Ok(f.ap(x)) } else { Err(vec![format!("k{x}")]) }) }).await),
            )
        })
    }) {
        cx.eq("fmap_valid_async", &av, &a.clone().map(|x| f.ap(x)), c);
        cx.eq("fmap_invalid_async", &ai, &wtag, c);
        let (mut got, mut all) = (mapped.take(), a.clone().err().unwrap_or_default());
        (got.sort(), all.sort());
        cx.eq("fmap_invalid_async.calls", &got, &all, c);
        cx.eq("and_then_async", &at, &a.clone().and_then(|x| if f.small(x, 2) == 0 { Ok(f.ap(x)) } else { Err(vec![format!("k{x}")]) }), c);
    }
    cx.case("single", &(&a, f, g), true, c);
}
/// iterators whose size hints are exact, inexact or unknown
struct Hint<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}
fn build(cx: &mut Ctx, r: &mut Rng) {
    let n = mon::views::some_len(r, 14);
    let es: Vec<String> = (0..n).map(|_| fresh()).collect();
    let x = r.small();
    let opt = r.chance(1, 2).then_some(x);
    let res: Result<i64, String> = opt.ok_or_else(|| "none".into());
    let c = || format!("errors={es:?} opt={opt:?}");
    if let Some(l) = cx.guard("build", c, || {
        let mut l = vec![
            view(&V::<i64>::invalid_many(es.clone())),
            view(&V::<i64>::invalid_many(Hint(es.clone().into_iter(), 0, None))),
            view(&V::<i64>::invalid_many(Hint(es.clone().into_iter(), n / 2, Some(n + 3)))),
            view(&V::<i64>::invalid_many(es.iter().filter(|_| true).cloned())),
        ];
        for m in 0..7 {
            l.push(view(&V::<i64>::invalid_many(mon::hinted_as(m, es.clone()))));
            if n > 0 {
                l.push(view(&V::<i64>::invalid_vec(mon::hinted_as(m, es.clone()))));
            }
        }
        if n > 0 {
            l.push(view(&V::<i64>::invalid_vec(es.clone())));
            l.push(view(&V::<i64>::invalid_vec(Hint(es.clone().into_iter(), 0, None))));
        }
        l
    }) {
        for got in l {
            cx.eq("invalid_many", &got, &Err(es.clone()), c);
        }
    }
    let n_calls = Cell::new(0);
    if let Some((o, oo, w, wo, fr, fro, vi, iv)) = cx.guard("from", c, || {
        let e = || {
            n_calls.set(n_calls.get() + 1);
            "none".to_string()
        };
        (
            view(&V::from_option(&opt, &"none".into())),
            view(&V::from_option_owned(opt, "none".into())),
            view(&V::from_option_with(&opt, &e)),
            view(&V::from_option_with_owned(opt, e)),
            view(&V::from_result(&res)),
            view(&V::from_result_owned(res.clone())),
            view(&V::valid(x)),
            view(&V::<i64>::invalid("none".into())),
        )
    }) {
        let want: R<i64> = opt.ok_or_else(|| vec!["none".into()]);
        for g in [o, oo, w, wo, fr, fro] {
            cx.eq("from_option", &g, &want, c);
        }
        cx.eq("from_option.calls", &n_calls.get(), &(2 * opt.is_none() as usize), c);
        cx.eq("valid", &(vi, iv), &(Ok(x), Err(vec!["none".into()])), c);
    }
    cx.case("build", &(&es, opt), true, c);
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let c = || format!("{n} errors, {few} operands");
    cx.case("wide", &(n, few), true, c);
    let es: Vec<String> = (0..n).map(|i| format!("e{i}")).collect();
    let big: V<i64> = Validated::invalid_many(es.clone());
    let same = |v: &V<i64>, want: &[String]| matches!(v, Validated::Invalid(e) if e[..] == *want);
    cx.check("wide.invalid_many", same(&big, &es), c);
    let (a, b): (V<i64>, V<i64>) = (Validated::invalid_many(es[..few].to_vec()), Validated::invalid_many(es[few..].to_vec()));
    cx.check("wide.combine_errors", same(&a.combine_errors(&b), &es) && same(&a.clone().combine_errors_owned(b.clone()), &es), c);
    cx.check("wide.lift2", same(&V::<i64>::lift2(|x: &i64, y: &i64| x + y, &a, &b), &es) && same(&V::<i64>::lift2_owned(|x: i64, y: i64| x + y, a.clone(), b.clone()), &es), c);
    let vs: Vec<V<i64>> = es.iter().map(|e| Validated::invalid(e.clone())).collect();
    let refs: Vec<&V<i64>> = vs.iter().collect();
    cx.check("wide.sequence", view(&V::<i64>::sequence(&refs, &|x: &[i64]| x.to_vec())) == Err(es.clone()), c);
    cx.check("wide.sequence_owned", view(&V::<i64>::sequence_owned(vs.clone(), |x: Vec<i64>| x)) == Err(es.clone()), c);
    cx.check("wide.collect", view(&V::<i64>::collect::<_, Vec<i64>>(vs.clone().into_iter())) == Err(es.clone()), c);
    cx.check("wide.collect_owned", view(&V::<i64>::collect_owned::<_, Vec<i64>>(vs.into_iter())) == Err(es.clone()), c);
    cx.check("wide.collect_errors", matches!(collect_errors(es.clone()), Validated::Invalid(e) if e.to_vec() == es), c);
    cx.check("wide.fmap_invalid", matches!(big.fmap_invalid(|e| e.len()), Validated::Invalid(e) if e.to_vec() == es.iter().map(|e| e.len()).collect::<Vec<_>>()), c);
    cx.check("wide.fmap_invalid_owned", matches!(big.clone().fmap_invalid_owned(|e| e.len()), Validated::Invalid(e) if e.to_vec() == es.iter().map(|e| e.len()).collect::<Vec<_>>()), c);
    cx.check("wide.traverse_validated", view(&traverse_validated(0..n, |i| Err::<i64, String>(format!("e{i}")))) == Err(es.clone()), c);
    cx.check("wide.recover_all", view(&big.clone().recover_all(Validated::invalid)) == Err(es.clone()), c);
    cx.check("wide.reads", big.errors() == es && big.unwrap_invalid() == es && big.iter_errors().count() == n && big.error_slice() == &es[..], c);
    let f: Validated<String, fn(&i64) -> i64> = Validated::invalid_many(es[..few].to_vec());
    let fo: Validated<String, fn(i64) -> i64> = Validated::invalid_many(es[..few].to_vec());
    cx.check("wide.apply", view(&f.apply(&b)) == Err(es.clone()) && view(&fo.apply_owned(b.clone())) == Err(es.clone()), c);
    let (b1, b2): (V<i64>, V<i64>) = (Validated::invalid_many(es[few..n - few].to_vec()), Validated::invalid_many(es[n - few..].to_vec()));
    cx.check("wide.lift3", same(&V::<i64>::lift3(|x: &i64, y: &i64, z: &i64| x + y + z, &a, &b1, &b2), &es) && same(&V::<i64>::lift3_owned(|x: i64, y: i64, z: i64| x + y + z, a.clone(), b1.clone(), b2.clone()), &es), c);
    cx.check("wide.split", split_validated_errors(big) == es.iter().map(|e| Err(e.clone())).collect::<Vec<Result<i64, String>>>(), c);
    let ok: Vec<V<i64>> = (0..n as i64).map(Validated::Valid).collect();
    let all: Vec<i64> = (0..n as i64).collect();
    cx.check("wide.sequence_valid", view(&V::<i64>::sequence(&ok.iter().collect::<Vec<_>>(), &|x: &[i64]| x.to_vec())) == Ok(all.clone()), c);
    cx.check("wide.sequence_owned_valid", view(&V::<i64>::sequence_owned(ok.clone(), |x: Vec<i64>| x)) == Ok(all.clone()), c);
    cx.check("wide.collect_valid", view(&V::<i64>::collect::<_, Vec<i64>>(ok.clone().into_iter())) == Ok(all), c);
    cx.check("wide.collect_valid", view(&V::<i64>::collect_owned::<_, Vec<i64>>(ok.into_iter())) == Ok((0..n as i64).collect()), c);
}
