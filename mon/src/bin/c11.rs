use mon::views::*;
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::traits::alternative::Alternative;
use rustica::traits::hkt::HKT;
use rustica::traits::monad::Monad;
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::semigroup::Semigroup;

type Res<T> = Result<T, String>;
type Eit<T> = Either<String, T>;
type Val<T> = Validated<String, T>;

fn main() {
    main_with("C11", |cx| {
        cx.rule = "a case is a triple of containers; alt/mplus (both forms), neutral elements, associativity, left zero under bind, and guard are compared with the first-success (or all-in-order) model. \
                   Distinct by (type, operands)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(80_000, 8_000_000);
        for _ in 0..3 {
            let mut r = cx.rng.split();
            wide(cx, &mut r);
        }
        cx.par(8, |cx, _| {
            for _ in 0..n / 8 + 1 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                let r = &mut r;
                alts::<Option<i64>>(cx, r, "Option");
                alts::<Vec<i64>>(cx, r, "Vec");
                alts::<Maybe<i64>>(cx, r, "Maybe");
                alts::<Eit<i64>>(cx, r, "Either");
                alts::<Val<i64>>(cx, r, "Validated");
                alts::<Choice<i64>>(cx, r, "Choice");
                plus::<Option<i64>>(cx, r, "Option");
                plus::<Res<i64>>(cx, r, "Result");
                plus::<Maybe<i64>>(cx, r, "Maybe");
                plus::<Eit<i64>>(cx, r, "Either");
                plus::<Val<i64>>(cx, r, "Validated");
                plus::<Choice<i64>>(cx, r, "Choice");
                inherent(cx, r);
                alt_str(cx, r);
            }
        });
        cx.require("all_failed", 200);
        cx.require("second_wins", 500);
    });
}
/// first success; multi-valued choice keeps everything in order; several errors per the type
fn choose(k: K, ops: &[&M<i64>], got: &M<i64>) -> Result<(), String> {
    if k == K::Choice {
        let want: Vec<i64> = ops.iter().flat_map(|m| m.items.clone()).collect();
        return if got.items == want { Ok(()) } else { Err(format!("want {want:?}")) };
    }
    match ops.iter().find(|m| m.ok()) {
        Some(m) => {
            if got == *m {
                Ok(())
            } else {
                Err(format!("want the first success {m:?}"))
            }
        },
        None => {
            if !got.items.is_empty() {
                return Err("success out of failures".into());
            }
            let pool: Vec<&String> = ops.iter().flat_map(|m| &m.errs).collect();
            // the surviving error must come from the operands
            if got.errs.iter().all(|e| pool.contains(&e)) && (pool.is_empty() || k == K::Val || !got.errs.is_empty()) {
                Ok(())
            } else {
                Err(format!("errors {:?} are not those of the operands {pool:?}", got.errs))
            }
        },
    }
}
fn tally(cx: &mut Ctx, a: &M<i64>, b: &M<i64>, d: &M<i64>) {
    if !a.ok() && !b.ok() && !d.ok() {
        cx.count("all_failed", 1)
    } else if !a.ok() && b.ok() {
        cx.count("second_wins", 1)
    }
}
fn alts<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + Alternative + HKT<Source = i64, Output<i64> = S> + Clone,
    S::Output<()>: Sub<()>,
    S::Output<Vec<i64>>: Sub<Vec<i64>>,
{
    let k = S::K;
    let (a, b, d) = (gen_m(k, r, |r| r.small()), gen_m(k, r, |r| r.small()), gen_m(k, r, |r| r.small()));
    let c = || format!("{ty} a={a:?} b={b:?} d={d:?}");
    let (sa, sb, sd) = (S::mk(&a), S::mk(&b), S::mk(&d));
    tally(cx, &a, &b, &d);
    let cond = r.chance(1, 2);
    let Some((ab, l, rr, el, er, e, g, after)) = cx.guard(&format!("{ty}.alt"), c, || {
        let e = S::empty_alt::<i64>();
        (
            sa.alt(&sb).view(),
            sa.alt(&sb).alt(&sd).view(),
            sa.alt(&sb.alt(&sd)).view(),
            e.alt(&sa).view(),
            sa.alt(&e).view(),
            e.view(),
            S::guard(cond).view(),
            (sa.view(), sb.view(), sa.many().view()),
        )
    }) else {
        return;
    };
    let (after, many) = ((after.0, after.1), after.2);
    // repetition: the values there are, as one result; nothing where there is nothing
    let all = if k == K::List { a.items.clone() } else { a.items.iter().take(1).copied().collect() };
    cx.eq(&format!("{ty}.many"), &many.items, &if a.ok() { vec![all] } else { vec![] }, c);
    cx.check(&format!("{ty}.many.failure"), !a.ok() || many.errs.is_empty(), || format!("{} many={many:?}", c()));
    if let Err(e) = choose(k, &[&a, &b], &ab) {
        cx.violation(format!("{ty}.alt"), format!("{} got={ab:?}: {e}", c()));
    }
    if let Err(e) = choose(k, &[&a, &b, &d], &l) {
        cx.violation(format!("{ty}.alt3"), format!("{} got={l:?}: {e}", c()));
    }
    cx.eq(&format!("{ty}.alt.assoc"), &l, &rr, c);
    cx.check(&format!("{ty}.empty_alt"), e.items.is_empty(), || format!("{} empty_alt={e:?}", c()));
    // neutral on the left for every type; on the right as well unless the failure itself carries information
    cx.eq(&format!("{ty}.alt.left_empty"), &el, &a, c);
    if a.ok() || !k.has_err() {
        cx.eq(&format!("{ty}.alt.right_empty"), &er, &a, c);
    } else {
        cx.check(&format!("{ty}.alt.right_empty"), er.items.is_empty(), || format!("{} got={er:?}", c()));
    }
    cx.check(&format!("{ty}.guard"), g.items.len() == cond as usize, || format!("{} guard({cond})={g:?}", c()));
    cx.eq(&format!("{ty}.alt.operands"), &after, &(a.clone(), b.clone()), c);
    cx.case(&format!("{ty}.alt"), &(&a, &b, &d), true, c);
}
fn plus<S>(cx: &mut Ctx, r: &mut Rng, ty: &str)
where
    S: Sub<i64> + MonadPlus + Monad + HKT<Source = i64, Output<i64> = S> + Clone,
{
    let k = S::K;
    let (a, b, d) = (gen_m(k, r, |r| r.small()), gen_m(k, r, |r| r.small()), gen_m(k, r, |r| r.small()));
    let c = || format!("{ty} a={a:?} b={b:?} d={d:?}");
    let (sa, sb, sd) = (S::mk(&a), S::mk(&b), S::mk(&d));
    tally(cx, &a, &b, &d);
    let log = Log::<i64>::new();
    let Some((ab, abo, l, rr, z, zl, zr, zlo, zro, zb, after)) = cx.guard(&format!("{ty}.mplus"), c, || {
        let z = S::mzero::<i64>();
        (
            sa.mplus(&sb).view(),
            sa.clone().mplus_owned(sb.clone()).view(),
            sa.mplus(&sb).mplus(&sd).view(),
            sa.mplus(&sb.mplus(&sd)).view(),
            z.view(),
            z.mplus(&sa).view(),
            sa.mplus(&z).view(),
            S::mzero::<i64>().mplus_owned(sa.clone()).view(),
            sa.clone().mplus_owned(S::mzero::<i64>()).view(),
            z.bind::<i64, _>(|x| {
                log.add(*x);
                sa.clone()
            })
            .view(),
            (sa.view(), sb.view()),
        )
    }) else {
        return;
    };
    if let Err(e) = choose(k, &[&a, &b], &ab) {
        cx.violation(format!("{ty}.mplus"), format!("{} got={ab:?}: {e}", c()));
    }
    if let Err(e) = choose(k, &[&a, &b, &d], &l) {
        cx.violation(format!("{ty}.mplus3"), format!("{} got={l:?}: {e}", c()));
    }
    if k == K::Val && !a.ok() && !b.ok() {
        let w: Vec<String> = a.errs.iter().chain(&b.errs).cloned().collect();
        cx.eq(&format!("{ty}.mplus.errors"), &ab.errs, &w, c);
    }
    cx.eq(&format!("{ty}.mplus_owned"), &abo, &ab, c);
    cx.eq(&format!("{ty}.mplus.assoc"), &l, &rr, c);
    cx.check(&format!("{ty}.mzero"), z.items.is_empty(), || format!("mzero={z:?}"));
    cx.check(&format!("{ty}.mzero.bind"), zb.items.is_empty() && log.is_empty(), || format!("{} bind on mzero = {zb:?}", c()));
    if a.ok() || !k.has_err() || k == K::Val {
        cx.eq(&format!("{ty}.mplus.neutral"), &(&zl, &zr, &zlo, &zro), &(&a, &a, &a, &a), c);
    } else {
        cx.check(&format!("{ty}.mplus.neutral"), [&zl, &zr, &zlo, &zro].iter().all(|m| m.items.is_empty()), c);
    }
    cx.eq(&format!("{ty}.mplus.operands"), &after, &(a.clone(), b.clone()), c);
    cx.case(&format!("{ty}.mplus"), &(&a, &b, &d), true, c);
}
/// folding a list of alternatives finds the first success of the list
fn inherent(cx: &mut Ctx, r: &mut Rng) {
    let n = r.len_tail(9);
    let ms: Vec<M<i64>> = (0..n).map(|_| gen_m(K::Val, r, |r| r.small())).collect();
    let c = || format!("list {ms:?}");
    if let Some((o, e, v)) = cx.guard("fold.alt", c, || {
        (
            ms.iter().fold(Maybe::Nothing, |acc: Maybe<i64>, m| acc.alt(&Sub::mk(m))),
            ms.iter().fold(Either::Left("x".to_string()), |acc: Eit<i64>, m| acc.mplus(&Sub::mk(m))),
            ms.iter().fold(Val::<i64>::mzero::<i64>(), |acc: Val<i64>, m| acc.combine(&Sub::mk(m))),
        )
    }) {
        let first = ms.iter().find_map(|m| m.items.first().copied());
        cx.eq("fold.Maybe", &o.view().items.first().copied(), &first, c);
        cx.eq("fold.Either", &e.view().items.first().copied(), &first, c);
        let w: M<i64> = match first {
            Some(x) => M::one(x),
            None => M::err(ms.iter().flat_map(|m| m.errs.clone()).collect()),
        };
        cx.eq("fold.Validated", &v.view(), &w, c);
        cx.case("fold", &ms, n > 1, c);
    }
}
fn alt_str(cx: &mut Ctx, r: &mut Rng) {
    let a = gen_m(K::Val, r, |r| r.string());
    let b = gen_m(K::Val, r, |r| r.string());
    let c = || format!("a={a:?} b={b:?}");
    if let Some((x, y)) = cx.guard("Validated<String>.alt", c, || {
        (Validated::<String, String>::mk(&a).alt(&Sub::mk(&b)).view(), Validated::<String, String>::mk(&a).mplus_owned(Sub::mk(&b)).view())
    }) {
        let w = if a.ok() { &a } else { &b };
        if a.ok() || b.ok() {
            cx.eq("Validated<String>.alt", &x, w, c);
            cx.eq("Validated<String>.mplus_owned", &y, w, c);
        }
    }
}
/// counts and sizes beyond what eight, or sixteen, bits can count
fn wide(cx: &mut Ctx, r: &mut Rng) {
    let n = 65_536 + r.below(3_000);
    let few = 250 + r.below(1_200);
    let c = || format!("{few} and {n} values");
    cx.case("wide", &(few, n), true, c);
    let all: Vec<i64> = (0..n as i64).collect();
    let (a, b): (Choice<i64>, Choice<i64>) = (all[..few].iter().copied().collect(), all[few..].iter().copied().collect());
    cx.check("wide.mplus", a.mplus(&b).to_vec() == all && a.clone().mplus_owned(b.clone()).to_vec() == all, c);
    cx.check("wide.mplus.zero", a.mplus(&Choice::<i64>::mzero()).to_vec() == all[..few] && Choice::<i64>::mzero().mplus(&b).to_vec() == all[few..], c);
    // a long chain of alternatives picks what it has to
    let one: Option<i64> = (0..n).fold(None, |o: Option<i64>, i| o.alt(&(i >= few).then_some(i as i64)));
    cx.eq("wide.alt.option", &one, &Some(few as i64), c);
    let bad: Val<i64> = (0..few).fold(Val::<i64>::invalid("e0".into()), |v, i| v.mplus(&Validated::invalid(format!("f{i}"))));
    cx.eq("wide.mplus.errors_kept_or_last", &bad.is_invalid(), &true, c);
}
