//! C12: sequencing and traversing collections, pipelines and collection helpers.
use mon::*;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::{Maybe, MaybeError};
use rustica::datatypes::validated::Validated;
use rustica::error as er;
use rustica::utils::{categorical_utils as cu, error_utils as eu, hkt_utils as hu, transform_utils as tu};
use smallvec::SmallVec;
use std::cell::Cell;

type R = Result<i64, String>;
/// an iterator that counts how far it was pulled and whether a size hint is offered
struct Src<'a> {
    it: Vec<i64>,
    at: usize,
    pulls: &'a Cell<usize>,
    /// 0 exact, 1 unknown, 2 huge upper bound, 3 half as lower bound, 4 both, 5 too large an upper bound
    hint: usize,
    endless: bool,
}
impl Iterator for Src<'_> {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        self.pulls.set(self.pulls.get() + 1);
        self.at += 1;
        match self.it.get(self.at - 1) {
            Some(x) => Some(*x),
            None if self.endless && self.at < 100_000 => Some(7),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len().saturating_sub(self.at);
        match (self.hint, self.endless) {
            (0, false) => (n, Some(n)),
            (2, _) => (0, Some(usize::MAX)),
            (3, _) => (n / 2, None),
            (4, _) => (n / 2, Some(usize::MAX)),
            (5, false) => (0, Some(n + 3)),
            _ => (0, None),
        }
    }
}
/// items, with failures placed at chosen positions
fn gen_items(r: &mut Rng, max: usize) -> (Vec<i64>, Vec<bool>) {
    let n = if r.chance(1, 12) { r.below(max * 8) } else { r.len_upto(max) };
    let style = r.below(4);
    let bad: Vec<bool> = match style {
        0 => vec![false; n],
        1 => {
            let k = r.below(n.max(1));
            (0..n).map(|i| i == k).collect()
        },
        2 => (0..n).map(|_| r.chance(1, 2)).collect(),
        _ => (0..n).map(|_| r.chance(1, 8)).collect(),
    };
    // equal elements (and so equal errors) occur in a third of the lists
    let same = r.chance(1, 3);
    ((0..n as i64).map(|i| if same { r.range(0, 3) } else { i * 1000 + r.range(0, 999) }).collect(), bad)
}
/// element i succeeds with f(x) or fails with an error naming it
fn outcome(x: i64, bad: bool, f: Fun) -> R {
    if bad { Err(format!("err{x}")) } else { Ok(f.ap(x)) }
}
fn sequencing(cx: &mut Ctx, r: &mut Rng) {
    let (xs, bad) = gen_items(r, 12);
    let f = Fun::gen_(r);
    let outs: Vec<R> = xs.iter().zip(&bad).map(|(x, b)| outcome(*x, *b, f)).collect();
    let want: Result<Vec<i64>, String> = outs.iter().cloned().collect();
    let stop = outs.iter().position(|o| o.is_err()).map_or(xs.len(), |i| i + 1);
    let errs: Vec<String> = outs.iter().filter_map(|o| o.clone().err()).collect();
    let c = || format!("{xs:?} failing {bad:?}");
    cx.case("sequence", &(&xs, &bad, f), xs.len() > 1, c);
    cx.count(if errs.is_empty() { "all_ok" } else { "some_failed" }, 1);
    cx.max("len", xs.len() as u64);
    let eit = |o: &R| match o {
        Ok(v) => Either::<String, i64>::Right(*v),
        Err(e) => Either::Left(e.clone()),
    };
    let val = |o: &R| match o {
        Ok(v) => Validated::<String, i64>::Valid(*v),
        Err(e) => Validated::Invalid(SmallVec::from_vec(vec![e.clone(), "second".into()])),
    };
    if let Some(g) = cx.guard("sequence", c, || {
        [
            ("sequence", er::sequence(outs.clone())),
            ("utils.sequence", eu::sequence(outs.clone())),
            ("sequence_results", cu::sequence_results(outs.clone())),
            ("with_error.result", er::sequence_with_error::<R, i64, String>(outs.clone())),
            ("with_error.either", er::sequence_with_error::<Either<String, i64>, i64, String>(outs.iter().map(eit).collect())),
            ("with_error.validated", er::sequence_with_error::<Validated<String, i64>, i64, String>(outs.iter().map(val).collect())),
        ]
    }) {
        for (n, got) in g {
            cx.eq(&format!("sequence.{n}"), &got, &want, c);
        }
    }
    // the target element type is a conversion of the source's
    let big = er::sequence_with_error::<Result<i32, String>, i64, String>(outs.iter().map(|o| o.clone().map(|v| v as i32)).collect());
    cx.eq("sequence.with_error.into", &big, &want, c);
    let mays = er::sequence_with_error::<Maybe<i64>, i64, MaybeError>(outs.iter().map(|o| Maybe::from_option(o.clone().ok())).collect());
    cx.eq("sequence.with_error.maybe", &mays, &want.clone().map_err(|_| MaybeError::ValueNotPresent), c);
    let opts = cu::sequence_options(outs.iter().map(|o| o.clone().ok()).collect());
    cx.eq("sequence_options", &opts, &want.clone().ok(), c);
    // traversals: called on each element in order, and not beyond the first failure
    for (n, which) in [("traverse", 0), ("utils.traverse", 1)] {
        let calls: Log<i64> = Log::new();
        let pulls = Cell::new(0);
        let endless = errs.len() == 1 || (!errs.is_empty() && r.chance(1, 2));
        let src = Src { it: xs.clone(), at: 0, pulls: &pulls, hint: r.below(6), endless };
        let mut i = 0;
        let step = |x: i64| {
            calls.add(x);
            i += 1;
            outcome(x, bad.get(i - 1).copied().unwrap_or(false), f)
        };
        let Some(got) = cx.guard(n, c, || if which == 0 { er::traverse(src, step) } else { eu::traverse(src, step) }) else { continue };
        cx.eq(n, &got, &want, c);
        cx.eq(&format!("{n}.calls"), &calls.take(), &xs[..stop].to_vec(), c);
        if !errs.is_empty() {
            cx.eq(&format!("{n}.pulls"), &pulls.get(), &stop, c);
        }
    }
    // the accumulating form looks at everything
    for (n, which) in [("traverse_validated", 0), ("utils.traverse_validated", 1)] {
        let calls: Log<i64> = Log::new();
        let pulls = Cell::new(0);
        let src = Src { it: xs.clone(), at: 0, pulls: &pulls, hint: r.below(6), endless: false };
        let mut i = 0;
        let step = |x: i64| {
            calls.add(x);
            i += 1;
            outcome(x, bad[i - 1], f)
        };
        let Some(got) = cx.guard(n, c, || if which == 0 { er::traverse_validated(src, step) } else { eu::traverse_validated(src, step) }) else { continue };
        let w = if errs.is_empty() { Ok(outs.iter().cloned().filter_map(|o| o.ok()).collect::<Vec<_>>()) } else { Err(errs.clone()) };
        let g = match &got {
            Validated::Valid(v) => Ok(v.clone()),
            Validated::Invalid(es) => Err(es.to_vec()),
        };
        cx.eq(n, &g, &w, c);
        cx.eq(&format!("{n}.calls"), &calls.take(), &xs, c);
    }
}
fn helpers(cx: &mut Ctx, r: &mut Rng) {
    let (xs, keep) = gen_items(r, 12);
    let keep: Vec<bool> = xs.iter().map(|x| keep[xs.iter().position(|y| y == x).unwrap()]).collect();
    let ylen = if r.chance(1, 12) { 120 } else { 14 };
    let ys = r.vec_small(ylen);
    let f = Fun::gen_(r);
    let c = || format!("{xs:?} keep {keep:?} with {ys:?} {f:?}");
    cx.case("helpers", &(&xs, &keep, &ys, f), xs.len() > 1, c);
    let (log, plog): (Log<i64>, Log<i64>) = (Log::new(), Log::new());
    let is_kept = |x: i64| xs.iter().position(|y| *y == x).is_some_and(|i| keep[i]);
    let kept: Vec<i64> = xs.iter().zip(&keep).filter(|(_, k)| **k).map(|(x, _)| *x).collect();
    let mapped: Vec<String> = kept.iter().map(|x| format!("{}", f.ap(*x))).collect();
    let pulls = Cell::new(0);
    for hint in 0..6 {
        let src = Src { it: xs.clone(), at: 0, pulls: &pulls, hint, endless: false };
        let g = cx.guard("filter_map", c, || {
            hu::filter_map(
                src,
                |x| {
                    plog.add(*x);
                    is_kept(*x)
                },
                |x| {
                    log.add(x);
                    f.ap(x).to_string()
                },
            )
        });
        cx.eq("filter_map", &g.unwrap_or_default(), &mapped, c);
        cx.eq("filter_map.calls", &(plog.take(), log.take()), &(xs.clone(), kept.clone()), c);
        let src = Src { it: xs.clone(), at: 0, pulls: &pulls, hint, endless: false };
        let g = cx.guard("filter_map_collect", c, || {
            cu::filter_map_collect(src, |x| {
                log.add(x);
                is_kept(x).then(|| f.ap(x).to_string())
            })
        });
        cx.eq("filter_map_collect", &g.unwrap_or_default(), &mapped, c);
        cx.eq("filter_map_collect.calls", &log.take(), &xs, c);
    }
    // zipping stops at the shorter side
    let names: Vec<String> = ys.iter().map(|y| format!("y{y}")).collect();
    let zlog: Log<(i64, String)> = Log::new();
    let z = cx.guard("zip_with", c, || {
        hu::zip_with(xs.clone(), names.clone(), |x, y| {
            zlog.add((x, y.clone()));
            format!("{x}/{y}")
        })
    });
    let pairs: Vec<(i64, String)> = xs.iter().copied().zip(names.iter().cloned()).collect();
    cx.eq("zip_with", &z.unwrap_or_default(), &pairs.iter().map(|(x, y)| format!("{x}/{y}")).collect::<Vec<_>>(), c);
    cx.eq("zip_with.calls", &zlog.take(), &pairs, c);
    // fan out: every operation once, in order, on the same input
    let input = r.string();
    let flog: Log<(i64, String)> = Log::new();
    let ops: Vec<Box<dyn Fn(String) -> String>> = xs
        .iter()
        .map(|x| {
            let (x, l) = (*x, flog.clone());
            Box::new(move |s: String| {
                l.add((x, s.clone()));
                format!("{s}{x}")
            }) as Box<dyn Fn(String) -> String>
        })
        .collect();
    let g = cx.guard("fan_out", c, || hu::fan_out(input.clone(), ops));
    cx.eq("fan_out", &g.unwrap_or_default(), &xs.iter().map(|x| format!("{input}{x}")).collect::<Vec<_>>(), c);
    cx.eq("fan_out.calls", &flog.take(), &xs.iter().map(|x| (*x, input.clone())).collect::<Vec<_>>(), c);
    // compose_all: in order
    let tlog: Log<(i64, i64)> = Log::new();
    let trs: Vec<Box<dyn Fn(i64) -> i64>> = xs
        .iter()
        .map(|x| {
            let (x, l) = (*x, tlog.clone());
            Box::new(move |v: i64| {
                l.add((x, v));
                f.ap2(v, x)
            }) as Box<dyn Fn(i64) -> i64>
        })
        .collect();
    let start = r.small();
    let mut v = start;
    let mut trace = vec![];
    for x in &xs {
        trace.push((*x, v));
        v = f.ap2(v, *x);
    }
    if let Some(g) = cx.guard("compose_all", c, || hu::compose_all::<i64, i128>(trs)) {
        for _ in 0..2 {
            cx.eq("compose_all", &g(start), &(v as i128), c);
            cx.eq("compose_all.calls", &tlog.take(), &trace, c);
            // the same composite from another start
            let s2 = start.wrapping_mul(3).wrapping_add(7);
            cx.eq("compose_all.again", &g(s2), &(xs.iter().fold(s2, |v, x| f.ap2(v, *x)) as i128), c);
            tlog.take();
        }
    }
    // folding into a monoid: conversion of each element once, combined in order
    let strs: Vec<&str> = (0..mon::views::some_len(r, 6)).map(|_| *r.pick(&["a", "bb", "", "ccc", "d", "é"])).collect();
    cx.eq("fold_with", &cu::fold_with::<_, &str, String>(strs.clone()), &strs.concat(), c);
    // single-value helpers
    let o = if r.chance(1, 2) { Some(start) } else { None };
    let res: R = o.ok_or(input.clone());
    let n = Cell::new(0);
    let g = |x: i64| {
        n.set(n.get() + 1);
        f.ap(x)
    };
    let w = o.map(|x| f.ap(x));
    let lifted = hu::lift_option(g);
    let got = [lifted(o), lifted(o), cu::map_option(o, g), cu::flat_map_option(o, |x| Some(g(x)))];
    cx.eq("option_helpers", &got, &[w; 4], c);
    cx.eq("option_helpers.calls", &n.replace(0), &(4 * o.is_some() as i32), c);
    let again = [lifted(Some(start ^ 5)), lifted(None), lifted(o)];
    cx.eq("lift_option.again", &again, &[Some(f.ap(start ^ 5)), None, w], c);
    n.set(0);
    let wr = res.clone().map(|x| f.ap(x));
    let got = [hu::map_result(res.clone(), g), cu::map_result(res.clone(), g), cu::flat_map_result(res.clone(), |x| Ok(g(x))), cu::bimap_result(res.clone(), g, |e| e)];
    cx.eq("result_helpers", &got, &[wr.clone(), wr.clone(), wr.clone(), wr.clone()], c);
    cx.eq("result_helpers.calls", &n.replace(0), &(4 * o.is_some() as i32), c);
    cx.eq("bimap_result.err", &cu::bimap_result(res.clone(), |x| x, |e: String| e.len()), &res.clone().map_err(|e| e.len()), c);
    cx.eq("flat_map.fail", &(cu::flat_map_option(o, |_| None::<i64>), cu::flat_map_result(res.clone(), |_| Err::<i64, _>("later".to_string()))), &(None, Err(if o.is_some() { "later".into() } else { input.clone() })), c);
}
fn pipelines(cx: &mut Ctx, r: &mut Rng) {
    let (xs, bad) = gen_items(r, 8);
    let f = Fun::gen_(r);
    let start = r.small() as i32;
    let c = || format!("from {start} ops {xs:?} failing {bad:?} {f:?}");
    cx.case("pipeline", &(&xs, &bad, f, start), xs.len() > 1, c);
    let log: Log<(i64, i64)> = Log::new();
    let mk = || {
        xs.iter().zip(&bad).map(|(x, b)| {
            let (x, b, l) = (*x, *b, log.clone());
            move |v: i64| -> R {
                l.add((x, v));
                if b { Err(format!("err{x}")) } else { Ok(f.ap2(v, x)) }
            }
        })
    };
    let mut want: R = Ok(start as i64);
    let mut trace = vec![];
    for (x, b) in xs.iter().zip(&bad) {
        if let Ok(v) = want {
            trace.push((*x, v));
            want = if *b { Err(format!("err{x}")) } else { Ok(f.ap2(v, *x)) };
        }
    }
    for which in 0..2 {
        let ops: Vec<_> = mk().collect();
        let n = ["pipeline_result", "try_pipeline"][which];
        if let Some(g) = cx.guard(n, c, || if which == 0 { hu::pipeline_result::<i32, i64, String, _>(start, ops) } else { hu::try_pipeline::<i32, i64, String, _>(start, ops) }) {
            cx.eq(n, &g, &want, c);
            cx.eq(&format!("{n}.calls"), &log.take(), &trace, c);
        }
    }
    // operations after the first failing one are not even asked for
    let pulls = Cell::new(0);
    let pulled = &pulls;
    let ops = mk().map(|op| {
        pulled.set(pulled.get() + 1);
        move |v: i64| op(v).ok()
    });
    if let Some(g) = cx.guard("pipeline_option", c, || hu::pipeline_option::<i32, i64, _, _>(start, ops)) {
        cx.eq("pipeline_option", &g, &want.clone().ok(), c);
        cx.eq("pipeline_option.calls", &log.take(), &trace, c);
        cx.eq("pipeline_option.pulls", &pulls.get(), &trace.len(), c);
    }
}
/// functor pipelines and bulk maps
fn transforms(cx: &mut Ctx, r: &mut Rng) {
    let n = mon::views::some_len(r, 6);
    let vals: Vec<Option<i64>> = (0..n).map(|_| if r.chance(2, 3) { Some(r.small()) } else { None }).collect();
    let (f, g) = (Fun::gen_(r), Fun::gen_(r));
    let c = || format!("{vals:?} {f:?} {g:?}");
    cx.case("transform", &(&vals, f, g), n > 0, c);
    let log: Log<i64> = Log::new();
    let ff = |x: &i64| {
        log.add(*x);
        f.ap(*x)
    };
    let present: Vec<i64> = vals.iter().flatten().copied().collect();
    let got = cx.guard("transform_all", c, || tu::transform_all(&vals, ff));
    cx.eq("transform_all", &got.unwrap_or_default(), &vals.iter().map(|v| v.map(|x| f.ap(x))).collect::<Vec<_>>(), c);
    cx.eq("transform_all.calls", &log.take(), &present, c);
    let lists: Vec<Vec<i64>> = vals.iter().map(|v| v.iter().copied().collect()).collect();
    let got = tu::transform_all(&lists, ff);
    cx.eq("transform_all.vec", &got, &lists.iter().map(|v| v.iter().map(|x| f.ap(*x)).collect::<Vec<_>>()).collect::<Vec<_>>(), c);
    log.take();
    for v in vals.iter().copied().take(2) {
        let chain = [tu::transform_chain(Some(v), ff), tu::transform_chain(None::<Option<i64>>, ff)];
        cx.eq("transform_chain", &chain, &[Some(v.map(|x| f.ap(x))), None], c);
        cx.eq("transform_chain.calls", &log.take(), &v.into_iter().collect::<Vec<_>>(), c);
        let p = tu::Pipeline::new(v).map(ff).map_owned(|x| g.ap(x)).map(|x: &i64| x.to_string());
        let w = v.map(|x| g.ap(f.ap(x)).to_string());
        cx.eq("Pipeline.extract", &p.clone().extract(), &w, c);
        cx.eq("Pipeline.iter", &p.into_iter().collect::<Vec<_>>(), &w.into_iter().collect::<Vec<_>>(), c);
        cx.eq("Pipeline.calls", &log.take(), &v.into_iter().collect::<Vec<_>>(), c);
    }
    let p = tu::Pipeline::new(present.clone()).map(ff).map_owned(|x| g.ap(x)).extract();
    cx.eq("Pipeline.vec", &p, &present.iter().map(|x| g.ap(f.ap(*x))).collect::<Vec<_>>(), c);
    let x = r.small();
    cx.eq("Pipeline.id", &tu::Pipeline::new(Id::new(x)).map_owned(|v| f.ap(v)).extract(), &Id::new(f.ap(x)), c);
    let m = if r.chance(1, 2) { Maybe::Just(x) } else { Maybe::Nothing };
    cx.eq("Pipeline.maybe", &tu::Pipeline::new(m).map(|v| f.ap(*v)).extract().to_option(), &m.to_option().map(|v| f.ap(v)), c);
}

fn main() {
    main_with("C12", |cx| {
        cx.rule = "a list with its failing positions and function codes, counted once per distinct combination and only from two elements on".into();
        mon::shapes::rounds(cx);
        cx.assumptions = vec!["traversed iterators are finite or fail at a finite position".into()];
        for (k, n) in [("all_ok", 2_000), ("some_failed", 2_000), ("cases.pipeline", 5_000), ("cases.transform", 5_000), ("len", 40)] {
            cx.require(k, n);
        }
        let n = cx.n(20_000, 2_000_000);
        for _ in 0..12 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                sequencing(cx, &mut r);
                helpers(cx, &mut r);
                pipelines(cx, &mut r);
                transforms(cx, &mut r);
            }
        });
    });
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let (lo, hi) = (3_000 + r.below(3_000), 65_536 + r.below(3_000));
    let n = if r.chance(1, 3) { lo } else { hi };
    let few = 250 + r.below(1_200);
    let (at, first) = if r.chance(1, 2) { (None, n) } else { let a = r.below(n); (Some(a), a) };
    let c = || format!("{n} elements, first failure at {at:?}");
    cx.case("wide", &(n, at), true, c);
    let outs: Vec<R> = (0..n).map(|i| if Some(i) == at || (i > first && (i % 7 == 0 || i + 1 == n)) { Err(format!("e{i}")) } else { Ok(i as i64) }).collect();
    let want: Result<Vec<i64>, String> = outs.iter().cloned().collect();
    let opts: Vec<Option<i64>> = outs.iter().map(|o| o.clone().ok()).collect();
    cx.check("wide.sequence", er::sequence(outs.clone()) == want && cu::sequence_results(outs.clone()) == want, c);
    cx.check("wide.with_error", er::sequence_with_error::<R, i64, String>(outs.clone()) == want, c);
    cx.check("wide.options", cu::sequence_options(opts) == want.clone().ok(), c);
    let seen = Cell::new(0);
    let got = er::traverse(0..n, |i| {
        seen.set(seen.get() + 1);
        outs[i].clone()
    });
    cx.check("wide.traverse", got == want, c);
    cx.eq("wide.traverse.calls", &seen.get(), &(first + 1).min(n), c);
    let all = match er::traverse_validated(0..n, |i| outs[i].clone()) {
        Validated::Valid(v) => (v, vec![]),
        Validated::Invalid(e) => (vec![], e.to_vec()),
    };
    let errs: Vec<String> = outs.iter().filter_map(|o| o.clone().err()).collect();
    cx.check("wide.traverse_validated", all == if errs.is_empty() { (want.unwrap(), vec![]) } else { (vec![], errs) }, c);
    let few = *r.pick(&[few, n]);
    let ops: Vec<Box<dyn Fn(i64) -> i64>> = (0..few as i64).map(|i| Box::new(move |x: i64| x.wrapping_mul(3).wrapping_add(i)) as Box<dyn Fn(i64) -> i64>).collect();
    let chained = (0..few as i64).fold(1i64, |a, i| a.wrapping_mul(3).wrapping_add(i));
    cx.eq("wide.compose_all", &hu::compose_all::<i64, i64>(ops)(1), &chained, c);
    let steps: Vec<_> = (0..n as i64).map(|i| move |x: i64| Ok::<i64, String>(x.wrapping_mul(3).wrapping_add(i))).collect();
    let whole = (0..n as i64).fold(1i64, |a, i| a.wrapping_mul(3).wrapping_add(i));
    cx.eq("wide.pipeline", &(hu::pipeline_result(1i64, steps.clone()), hu::try_pipeline(1i64, steps)), &(Ok(whole), Ok(whole)), c);
    let maybe: Vec<_> = (0..n as i64).map(|i| move |x: i64| Some(x.wrapping_mul(3).wrapping_add(i))).collect();
    cx.eq("wide.pipeline_option", &hu::pipeline_option(1i64, maybe), &Some(whole), c);
    let xs: Vec<i64> = (0..n as i64).collect();
    cx.check("wide.zip_with", hu::zip_with(xs.clone(), xs.clone(), |a, b| a * 2 + b) == xs.iter().map(|x| x * 3).collect::<Vec<_>>(), c);
    cx.check("wide.fold_with", cu::fold_with::<_, String, String>(xs.iter().map(|x| x.to_string())) == xs.iter().map(|x| x.to_string()).collect::<String>(), c);
    let each: Vec<_> = xs.iter().map(|i| move |x: i64| x.wrapping_mul(3) + i).collect();
    cx.check("wide.fan_out", hu::fan_out(5i64, each) == xs.iter().map(|i| 15 + i).collect::<Vec<_>>(), c);
    let opt: Vec<Option<i64>> = xs.iter().map(|x| (x % 5 != 0).then_some(*x)).collect();
    cx.check("wide.transform_all", tu::transform_all(&opt, |x: &i64| x + 1) == opt.iter().map(|o| o.map(|x| x + 1)).collect::<Vec<_>>(), c);
    cx.check("wide.filter_map_collect", cu::filter_map_collect(xs.clone(), |x| (x % 3 != 0).then_some(x + 1)) == xs.iter().filter(|x| *x % 3 != 0).map(|x| x + 1).collect::<Vec<_>>(), c);
    cx.check("wide.pipeline_owner", tu::Pipeline::new(xs.clone()).map(|x| x + 1).map_owned(|x| x * 2).extract() == xs.iter().map(|x| (x + 1) * 2).collect::<Vec<_>>(), c);
    cx.check("wide.filter_map", hu::filter_map(xs.clone(), |x| x % 3 == 0, |x| x + 1) == xs.iter().filter(|x| *x % 3 == 0).map(|x| x + 1).collect::<Vec<_>>(), c);
}
