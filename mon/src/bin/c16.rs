//! C16: error context is complete, ordered and attached to its own failure only.
use mon::*;
use rustica::context;
use rustica::error::{
    ComposableError, ErrorContext, ErrorPipeline, IntoErrorContext, LazyContext, accumulate_context, context_accumulator, context_fn, error_pipeline,
    extract_context, format_error_chain, with_context, with_context_result,
};
use std::cell::Cell;

#[derive(Clone, Debug, Hash)]
enum Op {
    /// tag, how the message is given (string, &str, context value, lazy value, macro)
    Ctx(u32, u8),
    MapErr(u32),
    /// Some(true): recover to a value, Some(false): recover to a new error
    Recover(u32, bool),
    AndThen(u32, bool),
    Map(u32, Fun),
}
fn gen_ops(r: &mut Rng, tag: &mut u32) -> Vec<Op> {
    let n = r.len_tail(14);
    let long = r.chance(1, 10);
    (0..if long { n * 5 } else { n })
        .map(|_| {
            *tag += 1;
            let t = *tag;
            match r.below(10) {
                0..=4 => Op::Ctx(t, r.below(5) as u8),
                5 => Op::MapErr(t),
                6 => Op::Recover(t, r.chance(1, 2)),
                7 | 8 => Op::AndThen(t, r.chance(1, 2)),
                _ => Op::Map(t, Fun::gen_(r)),
            }
        })
        .collect()
}
fn text(t: u32) -> String {
    // some messages are empty, repeated or contain the chain's own separator
    match t % 17 {
        0 => String::new(),
        1 => "same".into(),
        2 => format!("a -> b{t}"),
        // nothing is trimmed, normalized, cut or interpreted
        3 => format!(" padded {t}\t "),
        4 => format!("two\nlines {t}\r\n"),
        5 => format!("{t}\n"),
        6 => "\u{feff} \u{200b}é😀\0".into(),
        7 => format!("braces {{}} {{0}} % (code: {t})"),
        8 => "long ".repeat(1 + (t as usize * 37) % 200),
        9 => " ".into(),
        10 => format!("Caused by: {t}: -> "),
        _ => format!("ctx {t}"),
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Model {
    res: Result<i64, String>,
    ctx: Vec<String>,
}
fn chain(err: &str, ctx_recent_first: &[String], code: Option<u32>) -> String {
    let mut parts = ctx_recent_first.to_vec();
    parts.push(err.to_string());
    let mut s = parts.join(" -> ");
    if let Some(c) = code {
        s += &format!(" (code: {c})");
    }
    s
}
/// every view of an error must tell the same story
fn views(cx: &mut Ctx, sig: &str, e: &ComposableError<String>, core: &str, recent_first: &[String], code: Option<u32>, c: &dyn Fn() -> String) {
    let want = recent_first.to_vec();
    cx.eq(&format!("{sig}.core"), &(e.core_error.as_str(), e.core_error().as_str()), &(core, core), c);
    cx.eq(&format!("{sig}.context"), &e.context(), &want, c);
    cx.eq(&format!("{sig}.context_iter"), &e.context_iter().cloned().collect::<Vec<_>>(), &want, c);
    cx.eq(&format!("{sig}.context_iter.rev"), &e.context_iter().rev().cloned().collect::<Vec<_>>(), &want.iter().rev().cloned().collect::<Vec<_>>(), c);
    cx.eq(&format!("{sig}.context_iter.len"), &e.context_iter().len(), &want.len(), c);
    cx.eq(&format!("{sig}.extract"), &extract_context(e), &want, c);
    cx.eq(&format!("{sig}.code"), &(e.error_code(), e.error_code), &(code, code), c);
    let ch = chain(core, recent_first, code);
    cx.eq(&format!("{sig}.chain"), &[e.error_chain(), format_error_chain(e), format!("{e}")], &[ch.clone(), ch.clone(), ch], c);
    cx.max("contexts", want.len() as u64);
}
fn pipeline(cx: &mut Ctx, r: &mut Rng) {
    let mut tag = 0;
    let start: Result<i64, String> = if r.chance(1, 2) { Ok(r.small()) } else { Err(format!("e{}", r.string())) };
    let ops = gen_ops(r, &mut tag);
    let c = || format!("{start:?} then {ops:?}");
    cx.case("pipeline", &(&start, &ops), ops.len() > 1, c);
    let mut m = Model { res: start.clone(), ctx: vec![] };
    let built = std::rc::Rc::new(Cell::new(0u32));
    let mut want_built = 0;
    let (calls, mut want_calls): (Log<(u32, String)>, Vec<(u32, String)>) = (Log::new(), vec![]);
    let mut p = if ops.len() % 2 == 0 { ErrorPipeline::new(start.clone()) } else { error_pipeline(start.clone()) };
    let mut failed_once = start.is_err();
    for op in &ops {
        let step = quiet(|| {
            let bl = built.clone();
            match op {
                Op::Ctx(t, k) => {
                    let s = text(*t);
                    match k {
                        0 => p.with_context(s),
                        1 => p.with_context(s.as_str()),
                        2 => p.with_context(ErrorContext::new(s)),
                        3 => p.with_context(LazyContext::new(move || {
                            bl.set(bl.get() + 1);
                            s
                        })),
                        _ => p.with_context(context!("{}{}", { bl.set(bl.get() + 1); "" }, s)),
                    }
                },
                Op::MapErr(t) => p.map_error(|e| {
                    calls.add((*t, e.clone()));
                    format!("{e}m{t}")
                }),
                Op::Recover(t, ok) => p.recover(|e| {
                    calls.add((*t, e.clone()));
                    if *ok { Ok(*t as i64) } else { Err(format!("{e}r{t}")) }
                }),
                Op::AndThen(t, ok) => p.and_then(|v| {
                    calls.add((*t, v.to_string()));
                    if *ok { Ok(v + 1) } else { Err(format!("f{t}")) }
                }),
                Op::Map(t, f) => p.map(|v| {
                    calls.add((*t, v.to_string()));
                    f.ap(v)
                }),
            }
        });
        match step {
            Ok(q) => p = q,
            Err(e) => {
                cx.violation("pipeline:panic", format!("{}\n{e:?}", c()));
                return;
            },
        }
        match op {
            Op::Ctx(t, k) => {
                if m.res.is_err() {
                    m.ctx.insert(0, text(*t));
                    want_built += (*k >= 3) as u32;
                }
            },
            Op::MapErr(t) => {
                if let Err(e) = &m.res {
                    want_calls.push((*t, e.clone()));
                    m.res = Err(format!("{e}m{t}"));
                }
            },
            Op::Recover(t, ok) => {
                if let Err(e) = &m.res {
                    want_calls.push((*t, e.clone()));
                    if *ok {
                        m = Model { res: Ok(*t as i64), ctx: vec![] };
                        cx.count("recovered", 1);
                    } else {
                        m.res = Err(format!("{e}r{t}"));
                    }
                }
            },
            Op::AndThen(t, ok) => {
                if let Ok(v) = m.res {
                    want_calls.push((*t, v.to_string()));
                    m.res = if *ok { Ok(v + 1) } else { Err(format!("f{t}")) };
                    if !*ok {
                        cx.count(if failed_once { "failed_again_after_recovery" } else { "failed_first" }, 1);
                        failed_once = true;
                    }
                }
            },
            Op::Map(t, f) => {
                if let Ok(v) = m.res {
                    want_calls.push((*t, v.to_string()));
                    m.res = Ok(f.ap(v));
                }
            },
        }
    }
    cx.eq("pipeline.calls", &calls.take(), &want_calls, c);
    cx.eq("pipeline.lazy_built", &built.get(), &want_built, c);
    let fin: Result<i64, ComposableError<String>> = if r.chance(1, 2) { p.finish().map_err(|b| *b) } else { p.finish_without_box() };
    match (&fin, &m.res) {
        (Ok(a), Ok(b)) => {
            cx.count("ended_ok", 1);
            cx.eq("pipeline.value", a, b, c)
        },
        (Err(e), Err(core)) => {
            cx.count("ended_err", 1);
            views(cx, "pipeline", e, core, &m.ctx, None, &c)
        },
        _ => cx.violation("pipeline.outcome", format!("{}\n  got: {fin:?}\n  want: {m:?}", c())),
    }
}
fn builder(cx: &mut Ctx, r: &mut Rng) {
    let core = r.string();
    let n = r.len_tail(9);
    let steps: Vec<(u8, u32)> = (0..n).map(|_| (r.below(9) as u8, r.below(200) as u32)).collect();
    let first_code = if r.chance(1, 3) { Some(r.u64() as u32) } else { None };
    let c = || format!("{core:?} code {first_code:?} steps {steps:?}");
    cx.case("builder", &(&core, &steps, first_code), n > 1, c);
    let (mut core_now, mut ctx, mut code): (String, Vec<String>, Option<u32>) = (core.clone(), vec![], first_code);
    let built = std::rc::Rc::new(Cell::new(0u32));
    let mut want_built = 0;
    let mut e = match first_code {
        Some(k) => ComposableError::with_code(core.clone(), k),
        None => match n % 3 {
            0 => ComposableError::new(core.clone()),
            1 => ComposableError::from(core.clone()),
            _ => core.clone().into(),
        },
    };
    for (k, t) in &steps {
        let s = text(*t);
        let bl = built.clone();
        e = match k {
            0 => e.with_context(s.clone()),
            1 => e.with_context(s.as_str()),
            2 => e.with_context(ErrorContext::new(s.as_str())),
            3 => {
                want_built += 1;
                let s = s.clone();
                e.with_context(LazyContext::new(move || {
                    bl.set(bl.get() + 1);
                    s
                }))
            },
            4 => {
                let s = s.clone();
                e.with_context(context!("{s}"))
            },
            5 => {
                // several at a time, the same ones again among them
                let more: Vec<String> = match t % 4 {
                    0 => vec![s.clone(), "extra".into()],
                    1 => vec![s.clone(), s.clone(), "extra".into()],
                    2 => vec![s.clone(), "extra".into(), "extra".into()],
                    _ => (0..t % 12).map(|j| text(t + j / 2)).chain(["extra".into()]).collect(),
                };
                for m in &more[..more.len() - 1] {
                    ctx.insert(0, m.clone());
                }
                e.with_contexts(mon::hinted(r, more))
            },
            6 => e.with_contexts(std::iter::empty()),
            7 => e.set_code(*t),
            _ => e.map_core(|x| format!("{x}+{t}")),
        };
        match k {
            0..=4 => ctx.insert(0, s),
            5 => ctx.insert(0, "extra".into()),
            7 => code = Some(*t),
            8 => core_now = format!("{core_now}+{t}"),
            _ => {},
        }
    }
    cx.eq("builder.lazy_built", &built.get(), &want_built, c);
    views(cx, "builder", &e, &core_now, &ctx, code, &c);
    views(cx, "builder.clone", &e.clone(), &core_now, &ctx, code, &c);
    cx.eq("builder.eq", &(e.clone() == e), &true, c);
    // changing the kind of the core error keeps everything else
    let n = e.clone().map_core(|s| s.len());
    cx.eq("map_core.kind", &(n.core_error, n.context(), n.error_code()), &(core_now.len(), ctx.clone(), code), c);
    // a difference in any part is a difference
    let recoded = e.clone().set_code(code.unwrap_or(1).wrapping_add(1));
    let recored = e.clone().map_core(|s| s + "?");
    let other = e.clone().with_context("more");
    cx.eq("builder.ne", &(other == e, recoded == e, recored == e), &(false, false, false), c);
    views(cx, "builder.untouched", &e, &core_now, &ctx, code, &c);
}
fn functions(cx: &mut Ctx, r: &mut Rng) {
    let core = r.string();
    let n = r.len_tail(10);
    let msgs: Vec<String> = (0..n).map(|_| text(r.below(300) as u32)).collect();
    let recent: Vec<String> = msgs.iter().rev().cloned().collect();
    let one = text(r.below(300) as u32);
    let c = || format!("{core:?} {msgs:?} {one:?}");
    cx.case("functions", &(&core, &msgs, &one), n > 0, c);
    views(cx, "with_context", &with_context(core.clone(), one.clone()), &core, std::slice::from_ref(&one), None, &c);
    views(cx, "accumulate", &accumulate_context(core.clone(), mon::hinted(r, msgs.clone())), &core, &recent, None, &c);
    views(cx, "accumulate.str", &accumulate_context(core.clone(), msgs.iter().map(|s| s.as_str())), &core, &recent, None, &c);
    let f = context_fn::<String, _>(one.clone());
    let g = context_accumulator::<String, _, String>(mon::hinted(r, msgs.clone()));
    for _ in 0..2 {
        // the enriching functions can be used again and again
        views(cx, "context_fn", &f(core.clone()), &core, std::slice::from_ref(&one), None, &c);
        views(cx, "context_accumulator", &g(core.clone()), &core, &recent, None, &c);
    }
    let built = std::rc::Rc::new(Cell::new(0u32));
    let lazy = |t: &str| {
        let (b, t) = (built.clone(), t.to_string());
        LazyContext::new(move || {
            b.set(b.get() + 1);
            t
        })
    };
    let ok: Result<i64, String> = Ok(3);
    let bad: Result<i64, String> = Err(core.clone());
    let g1 = with_context_result(ok, lazy(&one));
    cx.eq("with_context_result.ok", &g1.map_err(|e| e.error_chain()), &Ok(3), c);
    cx.eq("with_context_result.lazy_on_success", &built.get(), &0, c);
    match with_context_result(bad, lazy(&one)) {
        Ok(v) => cx.violation("with_context_result.err", format!("{} became Ok({v})", c())),
        Err(e) => views(cx, "with_context_result", &e, &core, std::slice::from_ref(&one), None, &c),
    }
    cx.eq("with_context_result.lazy_on_failure", &built.get(), &1, c);
    // context values
    let ec = ErrorContext::new(one.clone());
    cx.eq("ErrorContext", &[ec.message().to_string(), format!("{ec}"), ec.clone().into_error_context().message().to_string(), one.clone().into_error_context().message().to_string(), one.as_str().into_error_context().message().to_string(), lazy(&one).into_error_context().message().to_string()], &std::array::from_fn(|_| one.clone()), c);
    let num = r.small();
    let one2 = one.clone();
    cx.eq("context!", &context!("{}-{num:?}-{x}", one2, x = 5).into_error_context().message().to_string(), &format!("{one}-{num}-5"), c);
    // used with the ? operator and map_err along nested calls
    let chain3 = || -> Result<(), ComposableError<String>> {
        let inner = || Err::<(), _>(with_context(core.clone(), "inner"));
        let middle = || inner().map_err(|e| e.with_context("middle"));
        middle().map_err(|e| e.with_context("outer").set_code(9))
    };
    if let Err(e) = chain3() {
        views(cx, "nested", &e, &core, &["outer".to_string(), "middle".to_string(), "inner".to_string()], Some(9), &c);
    }
}
/// computations run with a context: it is added to a failure, whatever kind of description failed
fn runs(cx: &mut Ctx, r: &mut Rng) {
    use rustica::datatypes::{io::IO, state::State};
    use rustica::transformers::{ReaderT, StateT};
    let (ok, v, s0, core, msg) = (r.chance(1, 2), r.small(), r.small(), format!("e{}", r.string()), text(r.below(300) as u32));
    let how = r.below(5);
    let c = || format!("ok={ok} v={v} s0={s0} core={core:?} msg={msg:?} given as {how}");
    cx.case("runs", &(ok, v, s0, &core, &msg, how), !ok, c);
    let built = std::rc::Rc::new(Cell::new(0u32));
    type RES = Result<(i64, i64), String>;
    let (c1, c2, c3) = (core.clone(), core.clone(), core.clone());
    let res: RES = if ok { Ok((s0 + 1, v)) } else { Err(core.clone()) };
    let st: State<i64, Result<i64, String>> = State::new(move |s: i64| if ok { (Ok(v), s + 1) } else { (Err(c1.clone()), s + 1) });
    let eff: StateT<i64, RES, i64> = StateT::new(move |s: i64| if ok { Ok((s + 1, v)) } else { Err(c2.clone()) });
    let lifted: StateT<i64, RES, i64> = StateT::LiftM(res.clone());
    let rd: ReaderT<i64, Result<i64, String>, i64> = ReaderT::new(move |_| if ok { Ok(v) } else { Err(c3.clone()) });
    let mut got: Vec<(&str, Result<i64, ComposableError<String>>, i64)> = vec![];
    macro_rules! with {
        ($name:expr, $m:ident, $e:expr, $want:expr) => {{
            let bl = built.clone();
            let s = msg.clone();
            let out = match how {
                0 => { let $m = s; $e },
                1 => { let $m = s.as_str(); $e },
                2 => { let $m = ErrorContext::new(s); $e },
                3 => { let $m = LazyContext::new(move || { bl.set(bl.get() + 1); s }); $e },
                _ => { let $m = context!("{}{}", { bl.set(bl.get() + 1); "" }, s); $e },
            };
            got.push(($name, out, $want));
        }};
    }
    with!("state.run", m, { let (a, s) = st.try_run_state_with_context(s0, m); cx.eq("runs.state", &s, &(s0 + 1), c); a }, v);
    with!("state.eval", m, st.try_eval_state_with_context(s0, m), v);
    with!("state.exec", m, st.try_exec_state_with_context(s0, m), s0 + 1);
    with!("state_t.run", m, eff.try_run_state_with_context(s0, m).map(|p| p.0 * 1000 + p.1), (s0 + 1) * 1000 + v);
    with!("state_t.eval", m, eff.try_eval_state_with_context(s0, m), v);
    with!("lifted.run", m, lifted.try_run_state_with_context(s0, m).map(|p| p.0 * 1000 + p.1), (s0 + 1) * 1000 + v);
    with!("lifted.eval", m, lifted.try_eval_state_with_context(s0, m), v);
    with!("reader_t.run", m, rd.try_run_reader_with_context(s0, m), v);
    let n = got.len() as u32;
    cx.eq("runs.lazy", &built.get(), &if how >= 3 && !ok { n } else { 0 }, c);
    for (what, g, want) in got {
        match g {
            Ok(x) => {
                cx.check(&format!("{what}.value"), ok && x == want, || format!("{x}, wanted {want}: {}", c()));
            },
            Err(e) => {
                cx.check(&format!("{what}.failed"), !ok, || format!("failed: {}", c()));
                views(cx, what, &e, &core, std::slice::from_ref(&msg), None, &c);
            },
        }
    }
    // without a context there is none
    for e in [st.try_eval_state(s0).err(), eff.try_eval_state(s0).err(), lifted.try_eval_state(s0).err(), rd.try_run_reader(s0).err(), st.try_run_state(s0).0.err(), lifted.try_run_state(s0).err()] {
        cx.check("plain.failed", e.is_some() != ok, c);
        if let Some(e) = e {
            views(cx, "plain", &e, &core, &[], None, &c);
        }
    }
    // an IO failure: what the panic said is the core of the error, the context comes on top
    let said = core.clone();
    let io = IO::new(move || if ok { v } else { std::panic::panic_any(said.clone()) });
    for (what, g) in [("io.try_get", quiet(|| io.try_get_with_context(msg.clone()))), ("io.composable", quiet(|| io.try_get_composable_with_context(msg.as_str()).map_err(|e| *e)))] {
        match g {
            Ok(Ok(x)) => {
                cx.check(&format!("{what}.value"), ok && x == v, c);
            },
            Ok(Err(e)) => {
                cx.eq(&format!("{what}.context"), &(ok, e.context(), format!("{:?}", e.core_error()).contains(&format!("{core:?}")[1..format!("{core:?}").len() - 1])), &(false, vec![msg.clone()], true), c);
            },
            Err(p) => cx.violation(&format!("{what}.panic"), format!("panicked ({p:?}): {}", c())),
        }
    }
}

fn main() {
    main_with("C16", |cx| {
        cx.rule = "a pipeline program, an enrichment history or a list of messages, counted once per distinct value and only from two steps on".into();
        cx.assumptions = vec!["a message belongs to the failure in flight when it was added: it stays when recovery fails in turn and goes when recovery succeeds".into()];
        for (k, n) in [("ended_ok", 2_000), ("ended_err", 2_000), ("recovered", 2_000), ("failed_again_after_recovery", 500), ("contexts", 12)] {
            cx.require(k, n);
        }
        let mut r = cx.rng.split();
        mon::worn::contexts(cx, &mut r);
        cx.require("worn_runs", 4_000);
        let n = cx.n(20_000, 2_000_000);
        for i in 0..6 {
            let mut r = cx.rng.split();
            wide(cx, &mut r, i);
        }
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                pipeline(cx, &mut r);
                builder(cx, &mut r);
                functions(cx, &mut r);
                runs(cx, &mut r);
            }
        });
    });
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng, i: usize) {
    let few = [250 + r.below(1_200), 3_000 + r.below(9_000), 65_536 + r.below(3_000), 250 + r.below(1_200), 40 + r.below(40), 3 + r.below(6)][i];
    // the fewer the messages the longer
    let long = [0, 0, 0, 300, 5_000, 66_000][i];
    let c = || format!("{few} contexts of about {long} bytes");
    cx.case("wide", &(few, long), true, c);
    cx.max("message_bytes", long as u64);
    let msgs: Vec<String> = (0..few).map(|i| format!("m{i}{}", "é-".repeat(long / 3 + if long > 0 { r.below(5) } else { 0 }))).collect();
    let recent: Vec<String> = msgs.iter().rev().cloned().collect();
    let e = ComposableError::new("core".to_string()).with_contexts(msgs.clone());
    views(cx, "wide.with_contexts", &e, "core", &recent, None, &c);
    let e = msgs.iter().fold(ComposableError::with_code("core".to_string(), 7), |e, m| e.with_context(m.as_str()));
    views(cx, "wide.with_context", &e, "core", &recent, Some(7), &c);
    views(cx, "wide.accumulate", &accumulate_context("core".to_string(), msgs.clone()), "core", &recent, None, &c);
    let p = msgs.iter().fold(error_pipeline(Err::<i64, _>("core".to_string())), |p, m| p.with_context(m.clone()).map_error(|e| e));
    match p.finish() {
        Ok(v) => cx.violation("wide.pipeline", format!("{v}: {}", c())),
        Err(e) => views(cx, "wide.pipeline", &e, "core", &recent, None, &c),
    }
    let p = msgs.iter().fold(error_pipeline(Err::<i64, _>("core".to_string())), |p, m| p.with_context(m.clone()).map(|v| v + 1).and_then(Ok).recover(Err));
    match p.finish_without_box() {
        Ok(v) => cx.violation("wide.pipeline.unboxed", format!("{v}: {}", c())),
        Err(e) => views(cx, "wide.pipeline.unboxed", &e, "core", &recent, None, &c),
    }
    // a long core, and one long message for everything that takes one
    let big = msgs.concat();
    let one = [big.clone()];
    views(cx, "wide.one.with_context", &with_context(big.clone(), big.as_str()), &big, &one, None, &c);
    views(cx, "wide.one.context_fn", &context_fn(big.clone())("core".to_string()), "core", &one, None, &c);
    views(cx, "wide.one.lazy", &with_context("core".to_string(), LazyContext::new(|| big.clone())), "core", &one, None, &c);
    views(cx, "wide.many.accumulator", &context_accumulator(msgs.clone())(big.clone()), &big, &recent, None, &c);
}
