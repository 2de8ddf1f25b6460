//! Small programs over the whole public API whose values are drop-counted (`Tr`) or own heap memory.
//! They assert nothing about results: the sanitizers, the drop counts and the allocation balance judge them.
use crate::Rng;
use crate::track::{Tr, see, tick};
use crate::views::*;
use rustica::category::function_category::{Arrow, Category, FunctionCategory as FC};
use rustica::datatypes::async_monad::AsyncM;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::cont::Cont;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::io::IO;
use rustica::datatypes::iso_lens::IsoLens;
use rustica::datatypes::iso_prism::IsoPrism;
use rustica::datatypes::lens::Lens;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::prism::Prism;
use rustica::datatypes::reader::Reader;
use rustica::datatypes::state::State;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::memoizer::Memoizer;
use rustica::datatypes::wrapper::predicate::Predicate;
use rustica::datatypes::wrapper::thunk::Thunk;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min};
use rustica::datatypes::writer::Writer;
use rustica::error::{ComposableError, ErrorPipeline, accumulate_context, error_pipeline, with_context_result};
use rustica::pvec::PersistentVector as PV;
use rustica::traits::alternative::Alternative;
use rustica::traits::applicative::Applicative;
use rustica::traits::bifunctor::Bifunctor;
use rustica::traits::evaluate::{Evaluate, EvaluateExt};
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::hkt::{BinaryHKT, HKT};
use rustica::traits::identity::Identity;
use rustica::traits::iso::Iso;
use rustica::traits::monad::Monad;
use rustica::traits::monad_error::{ErrorMapper, MonadError};
use rustica::traits::monad_plus::MonadPlus;
use rustica::traits::pure::Pure;
use rustica::traits::semigroup::{Semigroup, SemigroupExt};
use rustica::transformers::MonadTransformer;
use rustica::transformers::cont_t::ContT;
use rustica::transformers::reader_t::ReaderT;
use rustica::transformers::state_t::StateT;
use rustica::utils::error_utils as eu;
use rustica::utils::transform_utils::Pipeline;
use smallvec::SmallVec;
use std::sync::Arc;

pub fn tr(r: &mut Rng) -> Tr {
    Tr::new(r.small())
}
fn map(t: &Tr) -> Tr {
    Tr::new(see(t).wrapping_add(1))
}
fn map_o(t: Tr) -> Tr {
    Tr::new(see(&t).wrapping_mul(2))
}
fn two(a: &Tr, b: &Tr) -> Tr {
    Tr::new(see(a).wrapping_sub(see(b)))
}
/// containers through the trait hierarchy
fn container<S>(r: &mut Rng)
where
    S: Sub<Tr> + Applicative + HKT<Source = Tr, Output<Tr> = S> + Clone,
    S::Output<Vec<Tr>>: Clone,
{
    let (a, b, c) = (S::mk(&gen_small(S::K, r, tr)), S::mk(&gen_small(S::K, r, tr)), S::mk(&gen_small(S::K, r, tr)));
    for _ in 0..2 {
        match r.below(12) {
            0 => drop(a.fmap(map)),
            1 => drop(a.clone().fmap_owned(map_o)),
            2 => drop(S::lift2(two, &a, &b)),
            3 => drop(S::lift2_owned(|x: Tr, y: Tr| two(&x, &y), a.clone(), b.clone())),
            4 => drop(S::lift3(|x: &Tr, y: &Tr, z: &Tr| two(&two(x, y), z), &a, &b, &c)),
            5 => drop(S::lift3_owned(|x: Tr, y: Tr, z: Tr| vec![x, y, z], a.clone(), b.clone(), c.clone())),
            6 => drop(S::sequence_left::<Tr, Tr>(&a, &b)),
            7 => drop(S::sequence_right_owned::<Tr, Tr>(a.clone(), b.clone())),
            8 => drop(a.replace(&tr(r))),
            9 => drop(a.clone().void_owned()),
            10 => drop((S::pure(&tr(r)), S::pure_owned(tr(r)))),
            _ => drop(Pipeline::new(a.clone()).map(map).map_owned(map_o).extract()),
        }
    }
}
macro_rules! applies {
    ($r:expr, $t:ident) => {{
        let k = <$t<Tr> as Sub<Tr>>::K;
        let f = gen_small(k, $r, tr);
        let x = gen_small(k, $r, tr);
        let fs = $t::mk(&f.map(|t| {
            let t = t.clone();
            move |x: &Tr| two(&t, x)
        }));
        let fo = $t::mk(&f.map(|t| {
            let t = t.clone();
            move |x: Tr| two(&t, &x)
        }));
        let xs = <$t<Tr>>::mk(&x);
        drop(fs.apply::<Tr, Tr>(&xs));
        drop(fo.apply_owned::<Tr, Tr>(xs));
    }};
}
fn kl<S: Sub<Tr>>(x: &Tr) -> S {
    let v = see(x);
    let k = S::K;
    let mut m = M::one(Tr::new(v.wrapping_mul(3)));
    match k {
        K::Choice => {
            for i in 0..v.rem_euclid(4) {
                m.items.push(Tr::new(i));
            }
            if v.rem_euclid(5) == 0 {
                m.items.clear();
            }
        },
        K::Id | K::Writer => {},
        _ if v.rem_euclid(3) == 0 => {
            m.items.clear();
            m.errs.push(format!("e{v}"));
        },
        _ => {},
    }
    S::mk(&m)
}
fn monad<S, N>(r: &mut Rng)
where
    S: Sub<Tr> + Monad + HKT<Source = Tr, Output<Tr> = S> + Clone,
    N: Sub<S> + Monad + HKT<Source = S, Output<Tr> = S> + Clone,
{
    let a = S::mk(&gen_small(S::K, r, tr));
    let n = N::mk(&gen_small(N::K, r, |r| S::mk(&gen_small(S::K, r, tr))));
    for _ in 0..2 {
        match r.below(6) {
            0 => drop(a.bind::<Tr, _>(|x| kl::<S>(x))),
            1 => drop(a.clone().bind_owned::<Tr, _>(|x| kl::<S>(&x))),
            2 => drop(a.flat_map::<Tr, _>(|x| kl::<S>(x))),
            3 => drop(n.join::<Tr>()),
            4 => drop(n.clone().join_owned::<Tr>()),
            _ => drop(a.clone().flat_map_owned::<Tr, _>(|x| kl::<S>(&x))),
        }
    }
}
fn plus<S: Sub<Tr> + MonadPlus + Clone>(r: &mut Rng) {
    let (a, b) = (S::mk(&gen_small(S::K, r, tr)), S::mk(&gen_small(S::K, r, tr)));
    drop(a.mplus(&b));
    drop(a.mplus_owned(b));
}
fn alt<S: Sub<Tr> + Alternative + Clone>(r: &mut Rng) {
    let (a, b) = (S::mk(&gen_small(S::K, r, tr)), S::mk(&gen_small(S::K, r, tr)));
    drop(a.alt(&b));
}
fn fold<S: Sub<Tr> + Foldable + HKT<Source = Tr>>(r: &mut Rng) {
    let a = S::mk(&gen_m(S::K, r, tr));
    let init = vec![tr(r)];
    let l = a.fold_left(&init, |acc: &Vec<Tr>, x| {
        let mut acc = acc.clone();
        acc.push(map(x));
        acc
    });
    let rr = a.fold_right(&tr(r), |x, acc| two(x, acc));
    drop((l, rr));
}
type Res<T> = Result<T, String>;
type Eit<T> = Either<String, T>;
type Val<T> = Validated<String, T>;
type Wr<T> = Writer<Vec<String>, T>;

fn p_containers(r: &mut Rng) {
    match r.below(12) {
        0 => container::<Option<Tr>>(r),
        1 => container::<Res<Tr>>(r),
        2 => container::<Vec<Tr>>(r),
        3 => container::<Maybe<Tr>>(r),
        4 => container::<Eit<Tr>>(r),
        5 | 6 => container::<Val<Tr>>(r),
        7 | 8 => container::<Choice<Tr>>(r),
        9 => container::<Id<Tr>>(r),
        _ => container::<Wr<Tr>>(r),
    }
}
fn p_apply(r: &mut Rng) {
    match r.below(9) {
        0 => applies!(r, Option),
        1 => applies!(r, Res),
        2 => applies!(r, Vec),
        3 => applies!(r, Maybe),
        4 => applies!(r, Eit),
        5 => applies!(r, Val),
        6 => applies!(r, Choice),
        7 => applies!(r, Id),
        _ => applies!(r, Wr),
    }
}
fn p_monads(r: &mut Rng) {
    match r.below(8) {
        0 => monad::<Option<Tr>, Option<_>>(r),
        1 => monad::<Res<Tr>, Res<_>>(r),
        2 => monad::<Maybe<Tr>, Maybe<_>>(r),
        3 => monad::<Eit<Tr>, Eit<_>>(r),
        4 => monad::<Val<Tr>, Val<_>>(r),
        5 => monad::<Choice<Tr>, Choice<_>>(r),
        6 => monad::<Id<Tr>, Id<_>>(r),
        _ => monad::<Wr<Tr>, Wr<_>>(r),
    }
}
fn p_choose(r: &mut Rng) {
    plus::<Option<Tr>>(r);
    plus::<Res<Tr>>(r);
    plus::<Maybe<Tr>>(r);
    plus::<Eit<Tr>>(r);
    plus::<Val<Tr>>(r);
    plus::<Choice<Tr>>(r);
    alt::<Vec<Tr>>(r);
    alt::<Maybe<Tr>>(r);
    alt::<Val<Tr>>(r);
    alt::<Choice<Tr>>(r);
}
fn p_fold(r: &mut Rng) {
    match r.below(7) {
        0 => fold::<Vec<Tr>>(r),
        1 => fold::<Option<Tr>>(r),
        2 => fold::<Res<Tr>>(r),
        3 => fold::<Choice<Tr>>(r),
        4 => fold::<Val<Tr>>(r),
        5 => fold::<Id<Tr>>(r),
        _ => fold::<PV<Tr>>(r),
    }
}
fn p_validated(r: &mut Rng) {
    type V = Validated<Tr, Tr>;
    let g = |r: &mut Rng| -> V {
        if r.chance(1, 3) {
            Validated::Valid(tr(r))
        } else {
            let n = *r.pick(&[0, 1, 2, 7, 8, 9, 12]);
            Validated::Invalid((0..n).map(|_| tr(r)).collect::<SmallVec<_>>())
        }
    };
    let (a, b) = (g(r), g(r));
    let vs: Vec<V> = (0..r.below(5)).map(|_| g(r)).collect();
    let one: V = Validated::Invalid(SmallVec::from_vec(vec![tr(r)]));
    match r.below(18) {
        0 => drop(one.combine_errors(&b)),
        1 => drop(one.combine_errors_owned(b)),
        2 => drop(a.fmap_invalid(map)),
        3 => drop(a.fmap_invalid_owned(map_o)),
        4 => drop((a.errors(), a.into_value())),
        5 => drop(b.into_error_payload()),
        6 => drop(Validated::sequence(&vs.iter().collect::<Vec<_>>(), &|xs: &[Tr]| xs.to_vec())),
        7 => drop(Validated::sequence_owned(vs, |xs: Vec<Tr>| xs)),
        8 => drop(V::collect::<_, Vec<Tr>>(vs.into_iter())),
        9 => drop(V::collect_owned::<_, Vec<Tr>>(vs.into_iter())),
        10 => drop((V::from_option(&Some(tr(r)), &tr(r)), V::from_option_owned(None, tr(r)))),
        11 => drop((V::from_option_with(&None, &|| Tr::new(4)), V::from_option_with_owned(Some(tr(r)), || Tr::new(5)))),
        12 => drop((V::from_result(&Err(tr(r))), V::from_result_owned(Ok(tr(r))))),
        13 => drop((Bifunctor::bimap(&a, map, map), Bifunctor::first(&b, map), Bifunctor::second(&b, map))),
        14 => drop((a.map_second(map), b.map_second_owned(map_o))),
        15 => {
            let mut a = a;
            for e in a.iter_errors_mut() {
                *e = Tr::new(see(e));
            }
            for v in a.iter_mut() {
                *v = map(v);
            }
            let it = a.into_iter();
            drop(it);
        },
        16 => drop((a.combine(&b), a.combine_owned(b))),
        _ => drop((a.unwrap_or(&tr(r)), b.to_result_owned().ok())),
    }
}
fn p_choice(r: &mut Rng) {
    let n = *r.pick(&[0, 1, 2, 7, 8, 9, 13]);
    let c: Choice<Tr> = (0..n).map(|_| tr(r)).collect();
    let i = r.below(12);
    let other: Vec<Tr> = (0..r.below(10)).map(|_| tr(r)).collect();
    match r.below(20) {
        0 => drop(c.dedup()),
        1 => drop(c.dedup_by_key(|t| see(t) % 3)),
        2 => drop(c.fold(vec![tr(r)], |mut acc, t| {
            acc.push(map(t));
            acc
        })),
        3 => drop(c.to_map_with_key(|t| see(t) % 4)),
        4 => drop(c.add_alternatives(other)),
        5 => drop(c.try_remove_alternative(i)),
        6 => drop(c.filter(|t| see(t) % 2 == 0)),
        7 => drop(c.fmap_alternatives(map)),
        8 => drop(c.filter_values(|t| see(t) % 2 == 1)),
        9 => drop(c.try_swap_with_alternative(i)),
        10 => drop(c.bind_lazy(|t| Choice::of_many(vec![map(t), map(t)])).take(r.below(5)).collect::<Vec<_>>()),
        11 => drop(Choice::of_many(other)),
        12 => {
            let mut it = c.into_iter();
            for _ in 0..r.below(4) {
                drop(it.next());
            }
        },
        13 => {
            let nn: Choice<Vec<Tr>> = (0..1 + r.below(4)).map(|i| (0..i + 1).map(|_| tr(r)).collect::<Vec<Tr>>()).collect::<Choice<Vec<Tr>>>();
            drop(nn.try_flatten::<Tr>());
        },
        14 => {
            let nn: Choice<Vec<Tr>> = (0..1 + r.below(4)).map(|i| (0..i + 1).map(|_| tr(r)).collect::<Vec<Tr>>()).collect::<Choice<Vec<Tr>>>();
            drop(nn.flatten_sorted::<Tr>());
        },
        15 => drop(Choice::new(tr(r), other).remove_alternative(0)),
        16 => drop(Choice::new(tr(r), vec![tr(r), tr(r)]).swap_with_alternative(r.below(3))),
        17 => drop((c.combine(&Choice::of_many(other.clone())), c.combine_owned(Choice::of_many(other)))),
        18 => drop(c.find_first(|t| see(t) > 0).cloned()),
        _ => drop((c.to_vec(), c.first().cloned(), c.alternatives().to_vec(), c == Choice::of_many(other))),
    }
}
fn p_either(r: &mut Rng) {
    type E = Either<Tr, Tr>;
    let g = |r: &mut Rng| -> E { if r.chance(1, 2) { Either::Left(tr(r)) } else { Either::Right(tr(r)) } };
    let (a, b) = (g(r), g(r));
    match r.below(16) {
        0 => drop(a.fmap_left(map_o)),
        1 => drop(a.fmap_right(map_o)),
        2 => drop((a.unwrap_or(tr(r)), b.right_option())),
        3 => drop((a.right_or(tr(r)), b.left_or(tr(r)))),
        4 => drop((a.left_option(), E::from_result(b.to_result()))),
        5 => drop((a.left_iter().collect::<Vec<_>>(), b.into_iter().next())),
        6 => {
            let mut a = a;
            for l in a.left_iter_mut() {
                *l = Tr::new(see(l));
            }
            drop(a.left_iter_ref().cloned().collect::<Vec<_>>());
        },
        7 => drop((Bifunctor::bimap(&a, map, map), Bifunctor::first(&b, map), Bifunctor::second(&b, map))),
        8 => drop((a.map_second(map), b.map_second_owned(map_o))),
        9 => {
            let mut x: E = Either::Left(tr(r));
            *x.left_mut() = tr(r);
            drop(x.unwrap_left());
        },
        10 => drop(E::Right(tr(r)).right_value()),
        11 => drop(E::Left(tr(r)).left_value()),
        12 => drop((rustica::error::either_to_validated(a), rustica::error::either_to_result(b))),
        13 => drop(E::Right(tr(r)).right_ref().clone()),
        14 => drop((a.clone() == b.clone(), a.try_value().cloned(), b.try_into_value())),
        _ => drop(a.unwrap()),
    }
}
fn p_maybe(r: &mut Rng) {
    let g = |r: &mut Rng| if r.chance(1, 3) { Maybe::Nothing } else { Maybe::Just(tr(r)) };
    let (a, b) = (g(r), g(r));
    match r.below(14) {
        0 => drop((a.unwrap_or(tr(r)), b.to_result(tr(r)))),
        1 => drop(a.fmap_or(tr(r), map_o)),
        2 => drop(a.unwrap_or_else(|| Tr::new(see(&Tr::new(3))))),
        3 => drop(a.filter(|t| see(t) % 2 == 0)),
        4 => drop(a.tap(|t| drop(see(t)))),
        5 => {
            let mut a = a;
            for t in a.iter_mut() {
                *t = map(t);
            }
            drop(a.iter().cloned().collect::<Vec<_>>());
        },
        6 => drop((a.to_vec(), b.into_iter().collect::<Vec<_>>())),
        7 => drop((a.try_unwrap(), b.to_standard_result())),
        8 => drop((Maybe::when(true, tr(r)), Maybe::from_option(Some(tr(r))))),
        9 => drop((Option::<Tr>::from(a.clone()), a.as_option().cloned(), b.try_into_value())),
        10 => drop((0..3).map(|_| tr(r)).collect::<Maybe<Tr>>()),
        11 => drop(a.unwrap()),
        12 => drop((a.clone() == b.clone(), format!("{a:?}{b:?}"))),
        _ => drop((a.try_value().cloned(), b.to_option())),
    }
}
fn p_wrappers(r: &mut Rng) {
    let (a, b) = (tr(r), tr(r));
    match r.below(12) {
        0 => drop(Min(a.clone()).combine(&Min(b.clone())).combine_owned(Min(a))),
        1 => drop(Max(a.clone()).combine(&Max(b.clone())).combine_owned(Max(a))),
        2 => drop(First(Some(a)).combine(&First(None)).combine_owned(First(Some(b)))),
        3 => drop(Last(Some(a)).combine(&Last(None)).combine_owned(Last(Some(b)))),
        4 => drop((Min(a).fmap_owned(map_o), Max(b).fmap(map))),
        5 => drop((First(Some(a)).fmap_owned(map_o), Last(Some(b)).fmap(map))),
        6 => {
            let p = Predicate::new(move |x: &Tr| see(x) > see(&a));
            let q = p.clone().union(&Predicate::new(move |x: &Tr| see(x) % 2 == see(&b) % 2)).negate();
            for _ in 0..3 {
                q.contains(&tr(r));
            }
        },
        7 => {
            let t = Thunk::new(move || map(&a));
            drop((t.evaluate(), t.clone().evaluate_owned(), t.fmap_evaluate(map_o)));
        },
        8 => drop((Id::new(a.clone()).then(Id::new(b)), Id::new(a).into_inner())),
        9 => {
            let w: Writer<Vec<Tr>, Tr> = Writer::new(vec![a, b], tr(r));
            let w2 = w.bind(|x| Writer::new(vec![map(x)], map(x)));
            drop((w2.clone().log(), w2.run(), w.unwrap()));
        },
        10 => drop(vec![a.clone(), b].combine_n(&3).combine_owned(vec![a])),
        _ => drop(Some(vec![a]).combine(&Some(vec![b])).combine_n_owned(2)),
    }
}
fn p_memo(r: &mut Rng) {
    let m: Memoizer<i64, Tr> = Memoizer::new();
    for _ in 0..6 {
        let k = r.range(0, 3);
        let v = tr(r);
        let pan = r.chance(1, 8);
        let res = crate::quiet(|| {
            m.get_or_compute(k, |_| {
                if pan {
                    crate::inject(5);
                }
                map(&v)
            })
        });
        // an injected panic from the surrounding run must not be swallowed here
        if let Err(p) = res {
            if p.injected != Some(5) {
                crate::inject(77);
            }
        }
        if r.chance(1, 6) {
            m.clear();
        }
    }
}
fn p_state(r: &mut Rng) {
    let (a, b) = (tr(r), tr(r));
    let s: State<Tr, Tr> = State::new(move |s: Tr| (two(&a, &s), map_o(s)));
    let t = match r.below(5) {
        0 => s.clone().fmap(map_o),
        1 => s.clone().bind(move |x| {
            let b = b.clone();
            State::new(move |s: Tr| (two(&two(&x, &b), &s), s))
        }),
        2 => State::pure(b),
        3 => rustica::datatypes::state::modify(map_o).bind(|()| rustica::datatypes::state::get()),
        _ => State::pure(move |x: Tr| two(&x, &b)).apply(s.clone()),
    };
    let st = tr(r);
    drop((t.run_state(st.clone()), t.eval_state(st.clone()), t.exec_state(st)));
    let st: StateT<Tr, Option<(Tr, Tr)>, Tr> = StateT::new(move |s: Tr| if see(&s) % 5 == 0 { None } else { Some((map(&s), s)) });
    let u = match r.below(6) {
        0 => st.fmap_with(map_o, |m: Option<(Tr, Tr)>, f| m.map(f)),
        1 => st.bind_with(
            |x: Tr| StateT::new(move |s: Tr| Some((two(&s, &x), x.clone()))),
            |m: Option<(Tr, Tr)>, f| m.and_then(|sa| f(sa)),
        ),
        2 => st.combine_with(&StateT::pure(tr(r), |sa: (Tr, Tr)| Some(sa)), |x: Tr, y: Tr| two(&x, &y), |x: Option<(Tr, Tr)>, y: Option<(Tr, Tr)>, f| match (x, y) {
            (Some(x), Some(y)) => Some(f(x, y)),
            _ => None,
        }),
        3 => StateT::lift(Some((tr(r), tr(r)))),
        4 => StateT::<Tr, Option<(Tr, Tr)>, Tr>::get(Some),
        _ => st.clone(),
    };
    if r.chance(4, 5) {
        drop(u.run_state(tr(r)));
    }
    let e: StateT<Tr, Result<(Tr, Tr), Tr>, Tr> = StateT::new(|s: Tr| if see(&s) % 2 == 0 { Err(map(&s)) } else { Ok((s.clone(), s)) });
    drop((e.try_run_state(tr(r)), e.try_eval_state(tr(r)), e.try_exec_state(tr(r))));
    drop(e.map_error(map_o).run_state(tr(r)));
}
fn p_reader(r: &mut Rng) {
    let (a, b) = (tr(r), tr(r));
    let d: Reader<Tr, Tr> = Reader::new(move |e: Tr| two(&e, &a));
    let d2 = match r.below(6) {
        0 => d.fmap(map_o),
        1 => d.bind(move |x| {
            let b = b.clone();
            Reader::new(move |e: Tr| two(&two(&e, &b), &x))
        }),
        2 => d.local(map_o),
        3 => d.combine(&Reader::ask_transform(map_o), |x: Tr, y: Tr| two(&x, &y)),
        4 => Reader::asks(map_o),
        _ => d.clone(),
    };
    drop((d2.run_reader(tr(r)), d2.run_reader(tr(r))));
    let c = tr(r);
    let t: ReaderT<Tr, Option<Tr>, Tr> = ReaderT::new(move |e: Tr| if see(&e) % 4 == 0 { None } else { Some(two(&e, &c)) });
    let u = match r.below(9) {
        0 => t.fmap(map_o),
        1 | 2 => t.bind(|x: Tr| ReaderT::new(move |e: Tr| Some(two(&e, &x)))),
        3 => t.local(map_o),
        4 => t.combine(&ReaderT::<Tr, Option<Tr>, Tr>::ask(Some), |x: Tr, y: Tr| two(&x, &y)),
        5 => t.bind_with(|x: Tr| ReaderT::new(move |e: Tr| Some(two(&x, &e))), |m: Option<Tr>, f| m.and_then(|x| f(x))),
        6 => ReaderT::lift(Some(tr(r))),
        7 => ReaderT::<Tr, Option<Tr>, Tr>::asks(map_o, Some),
        _ => ReaderT::pure(tr(r), Some),
    };
    drop((u.run_reader(tr(r)), u.clone().run_reader(tr(r))));
    let e: ReaderT<Tr, Result<Tr, Tr>, Tr> = ReaderT::new(|e: Tr| if see(&e) % 2 == 0 { Err(map(&e)) } else { Ok(e) });
    drop((e.try_run_reader(tr(r)), e.map_error(map_o).try_run_reader_with_context(tr(r), "c")));
    drop(e.bind(|x: Tr| ReaderT::new(move |e: Tr| if see(&e) % 3 == 0 { Err(x.clone()) } else { Ok(two(&e, &x)) })).run_reader(tr(r)));
}
fn p_cont(r: &mut Rng) {
    let (a, b, c) = (tr(r), tr(r), tr(r));
    let k: Cont<Tr, Tr> = match r.below(5) {
        0 => Cont::return_cont(a).fmap(map_o),
        1 => Cont::return_cont(a).bind(move |x| Cont::return_cont(two(&x, &b))),
        2 => Cont::new(move |k: Arc<dyn Fn(Tr) -> Tr + Send + Sync>| two(&k(a.clone()), &k(b.clone()))),
        3 => Cont::return_cont(a).call_cc(move |exit| exit(Tr::new(5)).bind(|_| Cont::return_cont(Tr::new(9)))),
        _ => Cont::return_cont(a).apply(Cont::return_cont(Arc::new(move |x: Tr| two(&x, &b)))),
    };
    let cc = c.clone();
    drop(k.run(move |x| two(&x, &c)));
    drop(k.clone().run(map_o));
    let (a, b) = (tr(r), tr(r));
    let t: ContT<Tr, Id<Tr>, Tr> = match r.below(5) {
        0 => ContT::pure(a).fmap(map_o),
        1 => ContT::pure(a).bind(move |x| ContT::pure(two(&x, &b))),
        2 => ContT::<Tr, Id<Tr>, Tr>::call_cc::<Tr, _>(move |k| k(a.clone()).bind(|x| ContT::pure(map_o(x)))),
        3 => ContT::pure(a).apply(ContT::pure(Arc::new(move |x: Tr| two(&x, &b)))),
        _ => ContT::lift(Id::new(a)),
    };
    drop(t.run(move |x: Tr| Id::new(two(&x, &cc))));
    drop(t.to_cont().run(map_o));
}
fn p_io(r: &mut Rng) {
    let (a, b) = (tr(r), tr(r));
    let io: IO<Tr> = match r.below(9) {
        0 => IO::pure(a),
        1 => IO::new(move || map(&a)),
        2 => IO::new(move || map(&a)).fmap(map_o),
        3 => IO::pure(a).bind(move |x| {
            let b = b.clone();
            IO::new(move || two(&x, &b))
        }),
        4 => IO::new_async(async move { map(&a) }),
        5 => {
            let c = b.clone();
            IO::when(move || see(&b) % 2 == 0, move || map(&a), move || c.clone())
        },
        6 => IO::pure(a).apply(IO::pure(move |x: Tr| two(&x, &b))),
        7 => IO::new(move || map(&a)).recover(move |_| IO::pure(b.clone())),
        _ => IO::new(move || {
            crate::inject(5);
        })
        .fmap(|()| Tr::new(1))
        .recover_with(a),
    };
    drop((io.try_get(), io.clone().try_get_composable()));
    drop(IO::sequence(vec![io.clone(), IO::pure(tr(r))]).try_get());
    drop(IO::combine(&io, &IO::pure(tr(r))).try_get());
    if r.chance(1, 3) {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        drop(rt.block_on(io.run_async()));
    }
}
fn p_async(r: &mut Rng) {
    use futures::executor::block_on;
    let (a, b) = (tr(r), tr(r));
    let m: AsyncM<Tr> = if r.chance(1, 2) {
        AsyncM::pure(a)
    } else {
        AsyncM::new(move || {
            let a = a.clone();
            async move { map(&a) }
        })
    };
    let k = match r.below(8) {
        0 => m.fmap(|x| async move { map_o(x) }),
        1 => m.bind(|x| async move { AsyncM::pure(map_o(x)) }),
        2 => m.clone().fmap_owned(|x| async move { map_o(x) }),
        3 => m.clone().bind_owned(move |x| {
            let b = b.clone();
            async move {
                AsyncM::new(move || {
                    let (x, b) = (x.clone(), b.clone());
                    async move { two(&x, &b) }
                })
            }
        }),
        4 => m.apply(AsyncM::pure(move |x: Tr| two(&x, &b))),
        5 => m.clone().zip_with(AsyncM::pure(b), |x, y| two(&x, &y)),
        6 => m.clone().recover_with(b),
        _ => AsyncM::from_result_or_default(|| async { Err::<Tr, ()>(()) }, b),
    };
    drop(block_on(k.try_get()));
    // a future dropped before it finished
    let fut = k.zip(m);
    drop(fut);
    let slow: AsyncM<Tr> = AsyncM::new(|| async {
        let t = Tr::new(1);
        std::future::pending::<()>().await;
        t
    });
    let mut fut = Box::pin(async move { slow.fmap(|x| async move { map_o(x) }).try_get().await });
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    let _ = std::future::Future::poll(fut.as_mut(), &mut cx);
}
#[derive(Clone, Debug, PartialEq)]
struct Rec {
    a: Tr,
    b: Tr,
}
#[derive(Clone, Debug, PartialEq)]
enum Case {
    X(Tr),
    Y(Tr),
}
struct RecIso;
impl Iso<Rec, (Tr, Tr)> for RecIso {
    type From = Rec;
    type To = (Tr, Tr);
    fn forward(&self, r: &Rec) -> (Tr, Tr) {
        (r.a.clone(), r.b.clone())
    }
    fn backward(&self, t: &(Tr, Tr)) -> Rec {
        Rec { a: t.0.clone(), b: t.1.clone() }
    }
}
struct CaseIso;
impl Iso<Case, Option<Tr>> for CaseIso {
    type From = Case;
    type To = Option<Tr>;
    fn forward(&self, c: &Case) -> Option<Tr> {
        match c {
            Case::X(t) => Some(t.clone()),
            Case::Y(_) => None,
        }
    }
    fn backward(&self, t: &Option<Tr>) -> Case {
        match t {
            Some(t) => Case::X(t.clone()),
            None => Case::Y(Tr::new(0)),
        }
    }
}
fn p_optics(r: &mut Rng) {
    let rec = Rec { a: tr(r), b: tr(r) };
    let lens = Lens::new(|r: &Rec| r.a.clone(), |r: Rec, a: Tr| Rec { a, ..r });
    match r.below(6) {
        0 => drop((lens.get(&rec), lens.set(rec, tr(r)))),
        1 => drop(lens.set_always(rec, tr(r))),
        2 => drop(lens.modify(rec.clone(), map_o) == lens.modify_always(rec, map_o)),
        3 => drop(lens.fmap(|t: Tr| vec![map_o(t)], |mut v: Vec<Tr>| v.pop().unwrap_or_default()).set(rec, vec![tr(r)])),
        4 => {
            let p = Prism::new(|c: &Case| if let Case::X(t) = c { Some(t.clone()) } else { None }, |t: &Tr| Case::X(t.clone()));
            for c in [Case::X(tr(r)), Case::Y(tr(r))] {
                drop((p.preview(&c), p.modify(c.clone(), map_o), p.set_if_different(c, tr(r))));
            }
            drop(p.review(&tr(r)));
        },
        _ => {
            let l: IsoLens<Rec, (Tr, Tr), _> = IsoLens::new(RecIso);
            drop((l.get(&rec), l.set(&(tr(r), tr(r))), l.modify(&rec, |(x, y)| (y, x))));
            let p: IsoPrism<Case, Tr, _> = IsoPrism::new(CaseIso);
            drop((p.preview(&Case::X(tr(r))), p.preview(&Case::Y(tr(r))), p.review(&tr(r))));
        },
    }
}
fn p_errors(r: &mut Rng) {
    let x: Result<Tr, Tr> = if r.chance(1, 2) { Ok(tr(r)) } else { Err(tr(r)) };
    match r.below(10) {
        0 => drop(x.catch(|e: &Tr| Ok(map(e)))),
        1 => drop(x.catch_owned(|e: Tr| Err(map_o(e)))),
        2 => drop((x.map_error_to(map), x.map_error_to_owned(map_o))),
        3 => {
            let p: ErrorPipeline<Tr, Tr> = error_pipeline(x).with_context("a").map(map_o);
            let p = p.and_then(|t| if see(&t) % 2 == 0 { Err(t) } else { Ok(t) }).with_context("b");
            drop(p.recover(|e: Tr| if see(&e) % 3 == 0 { Ok(map(&e)) } else { Err(map(&e)) }).map_error(map_o).finish());
        },
        4 => drop(with_context_result(x, "ctx")),
        5 => {
            let e: ComposableError<Tr> = accumulate_context(tr(r), vec!["a", "b"]);
            drop((e.context(), e.error_chain(), e.clone().map_core(map_o), rustica::error::composable_to_core(e)));
        },
        6 => drop((rustica::error::result_to_either(x.clone()), rustica::error::result_to_validated(x))),
        7 => drop((0..3).map(|_| tr(r)).map(|t| if see(&t) % 2 == 0 { Ok(t) } else { Err(t) }).collect::<Result<Vec<_>, Tr>>()),
        8 => drop(eu::ResultExt::bimap(x, map_o, map_o)),
        _ => {
            let v: Validated<Tr, Tr> = Validated::Invalid((0..10).map(|_| tr(r)).collect());
            drop((rustica::error::split_validated_errors(v), rustica::error::collect_errors((0..9).map(|_| tr(r)).collect::<Vec<_>>())));
        },
    }
}
fn p_arrows(r: &mut Rng) {
    let (a, b) = (tr(r), tr(r));
    let f = FC::arrow(move |x: Tr| two(&x, &a));
    let g = FC::arrow(move |x: Tr| two(&b, &x));
    let h = FC::compose_morphisms(&g, &f);
    drop(h(tr(r)));
    drop(FC::split(&f, &g)(tr(r)));
    drop(FC::combine_morphisms(&f, &g)((tr(r), tr(r))));
    drop(FC::identity_morphism::<Tr>()(tr(r)));
}
fn p_pvec(r: &mut Rng) {
    let n = *r.pick(&[0, 1, 5, 31, 32, 33, 64, 65, 97, 130]);
    let mut v: PV<Tr> = (0..n).map(|_| tr(r)).collect();
    let mut old = vec![v.clone()];
    for _ in 0..6 {
        let i = r.below(v.len().max(1));
        v = match r.below(18) {
            0 => v.push_back(tr(r)),
            1 => v.push_front(tr(r)),
            2 => v.pop_back().map(|(p, _)| p).unwrap_or_default(),
            3 => v.pop_front().map(|(p, _)| p).unwrap_or_default(),
            4 if !v.is_empty() => v.update(i, tr(r)),
            5 => v.insert(i, tr(r)),
            6 if !v.is_empty() => v.remove(i).unwrap_or_default(),
            7 => v.split_at(i).1,
            8 => v.concat(&old[0]),
            9 => v.filter(|t| see(t) % 3 != 0),
            10 => v.sorted(),
            11 => v.fmap(map),
            12 => v.take(i),
            13 => v.skip(i),
            14 => {
                let mut w = v.clone();
                w.extend((0..20).map(|_| tr(r)));
                w
            },
            15 => {
                let mut it = v.clone().into_iter();
                for _ in 0..i {
                    drop(it.next());
                }
                it.collect()
            },
            16 => v.zip(&old[0]).iter().map(|(a, b)| two(a, b)).collect(),
            _ => v.combine(&old[0]),
        };
        if v.len() > 300 {
            v = v.take(100);
        }
        if r.chance(1, 2) {
            old.push(v.clone());
        }
        if r.chance(1, 4) {
            let i = r.below(old.len());
            old.swap_remove(i);
            if old.is_empty() {
                old.push(v.clone());
            }
        }
    }
    for o in &old {
        for t in o.iter() {
            see(t);
        }
    }
    drop(v.to_vec());
}
/// values shared by several threads, dropped wherever the last owner happens to be
fn p_threads(r: &mut Rng) {
    let v: PV<Tr> = (0..70).map(|_| tr(r)).collect();
    let memo: Arc<Memoizer<i64, Tr>> = Arc::new(Memoizer::new());
    let a = tr(r);
    let io: IO<Tr> = IO::new(move || map(&a));
    let slow: IO<Tr> = IO::new_async(async { Tr::new(4) });
    let st: StateT<Tr, Option<(Tr, Tr)>, Tr> = StateT::new(|s: Tr| Some((map(&s), s)));
    let rd: ReaderT<Tr, Option<Tr>, Tr> = ReaderT::new(|e: Tr| Some(map_o(e))).bind(|x: Tr| ReaderT::new(move |e: Tr| Some(two(&e, &x))));
    let b = tr(r);
    let am: AsyncM<Tr> = AsyncM::new(move || {
        let b = b.clone();
        async move { map(&b) }
    });
    let ct: ContT<Tr, Id<Tr>, Tr> = ContT::pure(tr(r)).fmap(map_o);
    let seed = r.u64();
    std::thread::scope(|s| {
        for t in 0..3u64 {
            let (v, io, slow, st, rd, am, memo, ct) = (v.clone(), io.clone(), slow.clone(), st.clone(), rd.clone(), am.clone(), memo.clone(), ct.clone());
            s.spawn(move || {
                let mut r = Rng::new(seed ^ t);
                for i in 0..4 {
                    match r.below(8) {
                        0 => drop(v.push_back(tr(&mut r)).update(i, tr(&mut r))),
                        1 => drop(v.iter().map(see).sum::<i64>()),
                        2 => drop(io.run()),
                        3 => drop(slow.run()),
                        4 => drop(st.run_state(tr(&mut r))),
                        5 => drop(rd.run_reader(tr(&mut r))),
                        6 => drop((futures::executor::block_on(am.try_get()), ct.run(|x: Tr| Id::new(map_o(x))))),
                        _ => {
                            drop(memo.get_or_compute(i as i64, |_| Tr::new(1)));
                            if r.chance(1, 4) {
                                memo.clear();
                            }
                        },
                    }
                }
            });
        }
    });
    tick();
}
pub type Prog = (&'static str, fn(&mut Rng));
pub const PROGS: &[Prog] = &[
    ("containers", p_containers),
    ("apply", p_apply),
    ("monads", p_monads),
    ("choose", p_choose),
    ("fold", p_fold),
    ("validated", p_validated),
    ("choice", p_choice),
    ("either", p_either),
    ("maybe", p_maybe),
    ("wrappers", p_wrappers),
    ("memo", p_memo),
    ("state", p_state),
    ("reader", p_reader),
    ("cont", p_cont),
    ("io", p_io),
    ("async", p_async),
    ("optics", p_optics),
    ("errors", p_errors),
    ("arrows", p_arrows),
    ("pvec", p_pvec),
    ("threads", p_threads),
];
