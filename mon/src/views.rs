//! Reference models of the container types ("views") used by the law monitors.
use crate::Rng;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::pvec::PersistentVector;
use smallvec::SmallVec;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Opt,
    Res,
    List,
    Maybe,
    Either,
    Val,
    Choice,
    Id,
    Writer,
    PVec,
    First,
    Last,
    One, // Min, Max, Sum, Product
}
impl K {
    pub fn multi(self) -> bool {
        matches!(self, K::List | K::Choice | K::PVec)
    }
    pub fn has_err(self) -> bool {
        matches!(self, K::Res | K::Either | K::Val)
    }
}
/// Model of one container value.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M<T> {
    pub items: Vec<T>,
    pub errs: Vec<String>,
    pub log: Vec<String>,
}
impl<T: Clone> M<T> {
    pub fn items(items: Vec<T>) -> M<T> {
        M { items, errs: vec![], log: vec![] }
    }
    pub fn one(x: T) -> M<T> {
        M::items(vec![x])
    }
    pub fn err(errs: Vec<String>) -> M<T> {
        M { items: vec![], errs, log: vec![] }
    }
    pub fn map<U>(&self, f: impl FnMut(&T) -> U) -> M<U> {
        M { items: self.items.iter().map(f).collect(), errs: self.errs.clone(), log: self.log.clone() }
    }
    pub fn ok(&self) -> bool {
        !self.items.is_empty()
    }
    pub fn bind<U: Clone>(&self, k: K, mut f: impl FnMut(&T) -> M<U>) -> M<U> {
        if k.multi() {
            return M::items(self.items.iter().flat_map(|x| f(x).items).collect());
        }
        match self.items.first() {
            Some(x) => {
                let r = f(x);
                let mut log = self.log.clone();
                log.extend(r.log);
                M { items: r.items, errs: r.errs, log }
            },
            None => M { items: vec![], errs: self.errs.clone(), log: self.log.clone() },
        }
    }
    /// a outer, b inner
    pub fn lift2<B: Clone, C>(&self, k: K, b: &M<B>, mut f: impl FnMut(&T, &B) -> C) -> M<C> {
        let a = self;
        let mut items = vec![];
        for x in &a.items {
            for y in &b.items {
                items.push(f(x, y));
            }
        }
        let errs = match k {
            K::Val => a.errs.iter().chain(&b.errs).cloned().collect(),
            _ if k.multi() => vec![],
            _ if a.items.is_empty() => a.errs.clone(),
            _ => b.errs.clone(),
        };
        let log = a.log.iter().chain(&b.log).cloned().collect();
        M { items, errs, log }
    }
    /// functions in fs applied to values in self, in the order the type documents/tests for `apply`
    pub fn apply_from<F, C>(fs: &M<F>, k: K, xs: &M<T>, mut ap: impl FnMut(&F, &T) -> C) -> M<C>
    where
        F: Clone,
    {
        if k == K::Choice {
            let mut items = vec![];
            for x in &xs.items {
                for f in &fs.items {
                    items.push(ap(f, x));
                }
            }
            return M { items, errs: vec![], log: vec![] };
        }
        fs.lift2(k, xs, ap)
    }
}
/// A library container that can be built from and read back into its model.
pub trait Sub<T>: Sized {
    const K: K;
    fn mk(m: &M<T>) -> Self;
    fn view(&self) -> M<T>;
}
pub fn estr(r: &mut Rng) -> String {
    // a small pool now and then, so that equal entries occur and must all be kept
    let pool = if r.chance(1, 3) { 3 } else { 1000 };
    format!("e{}", r.below(pool))
}
/// mostly short, now and then far beyond every inline buffer
pub fn some_len(r: &mut Rng, usual: usize) -> usize {
    match r.below(40) {
        0 => 13 + r.below(60),
        1 if r.chance(1, 4) => 100 + r.below(1200),
        _ => r.len_upto(usual),
    }
}
pub fn gen_m<T>(k: K, r: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> M<T> {
    let mut m = M { items: vec![], errs: vec![], log: vec![] };
    match k {
        K::List | K::Choice => {
            for _ in 0..some_len(r, 12) {
                let x = f(r);
                m.items.push(x);
            }
        },
        K::PVec => {
            let n = if r.chance(1, 3) { 60 + r.below(80) } else { some_len(r, 12) };
            for _ in 0..n {
                let x = f(r);
                m.items.push(x);
            }
        },
        K::Opt | K::Maybe | K::First | K::Last => {
            if r.chance(2, 3) {
                let x = f(r);
                m.items.push(x);
            }
        },
        K::Res | K::Either => {
            if r.chance(3, 5) {
                let x = f(r);
                m.items.push(x);
            } else {
                m.errs.push(estr(r));
            }
        },
        K::Val => {
            if r.chance(3, 5) {
                let x = f(r);
                m.items.push(x);
            } else {
                let n = if r.chance(1, 10) { 0 } else { 1 + some_len(r, 11) };
                for _ in 0..n {
                    m.errs.push(estr(r));
                }
            }
        },
        K::Id | K::One => {
            let x = f(r);
            m.items.push(x);
        },
        K::Writer => {
            let x = f(r);
            m.items.push(x);
            for _ in 0..some_len(r, 3) {
                m.log.push(estr(r));
            }
        },
    }
    m
}
/// smaller containers for three-way products
pub fn gen_small<T>(k: K, r: &mut Rng, f: impl FnMut(&mut Rng) -> T) -> M<T> {
    let mut m = gen_m(k, r, f);
    let n = match r.below(60) {
        0 => 24,
        1..=10 => 6,
        _ => 3,
    };
    m.items.truncate(n);
    m.errs.truncate(40);
    m.log.truncate(40);
    m
}

impl<T: Clone> Sub<T> for Option<T> {
    const K: K = K::Opt;
    fn mk(m: &M<T>) -> Self {
        m.items.first().cloned()
    }
    fn view(&self) -> M<T> {
        M::items(self.iter().cloned().collect())
    }
}
impl<T: Clone> Sub<T> for Maybe<T> {
    const K: K = K::Maybe;
    fn mk(m: &M<T>) -> Self {
        match m.items.first() {
            Some(x) => Maybe::Just(x.clone()),
            None => Maybe::Nothing,
        }
    }
    fn view(&self) -> M<T> {
        M::items(match self {
            Maybe::Just(x) => vec![x.clone()],
            Maybe::Nothing => vec![],
        })
    }
}
impl<T: Clone> Sub<T> for Result<T, String> {
    const K: K = K::Res;
    fn mk(m: &M<T>) -> Self {
        match m.items.first() {
            Some(x) => Ok(x.clone()),
            None => Err(m.errs.first().cloned().unwrap_or_default()),
        }
    }
    fn view(&self) -> M<T> {
        match self {
            Ok(x) => M::one(x.clone()),
            Err(e) => M::err(vec![e.clone()]),
        }
    }
}
impl<T: Clone> Sub<T> for Either<String, T> {
    const K: K = K::Either;
    fn mk(m: &M<T>) -> Self {
        match m.items.first() {
            Some(x) => Either::Right(x.clone()),
            None => Either::Left(m.errs.first().cloned().unwrap_or_default()),
        }
    }
    fn view(&self) -> M<T> {
        match self {
            Either::Right(x) => M::one(x.clone()),
            Either::Left(e) => M::err(vec![e.clone()]),
        }
    }
}
impl<T: Clone> Sub<T> for Validated<String, T> {
    const K: K = K::Val;
    fn mk(m: &M<T>) -> Self {
        match m.items.first() {
            Some(x) => Validated::Valid(x.clone()),
            None => Validated::Invalid(SmallVec::from_vec(m.errs.clone())),
        }
    }
    fn view(&self) -> M<T> {
        match self {
            Validated::Valid(x) => M::one(x.clone()),
            Validated::Invalid(e) => M::err(e.to_vec()),
        }
    }
}
impl<T: Clone> Sub<T> for Vec<T> {
    const K: K = K::List;
    fn mk(m: &M<T>) -> Self {
        m.items.clone()
    }
    fn view(&self) -> M<T> {
        M::items(self.clone())
    }
}
impl<T: Clone> Sub<T> for Choice<T> {
    const K: K = K::Choice;
    fn mk(m: &M<T>) -> Self {
        m.items.iter().cloned().collect()
    }
    fn view(&self) -> M<T> {
        M::items(self.iter().cloned().collect())
    }
}
impl<T: Clone> Sub<T> for PersistentVector<T> {
    const K: K = K::PVec;
    fn mk(m: &M<T>) -> Self {
        // same contents, different internal shapes
        let n = m.items.len();
        match n % 5 {
            0 | 1 => PersistentVector::from_slice(&m.items),
            2 => m.items.iter().cloned().collect(),
            3 => {
                let k = n / 3;
                let back = m.items[k..].iter().fold(PersistentVector::new(), |v, x| v.push_back(x.clone()));
                m.items[..k].iter().rev().fold(back, |v, x| v.push_front(x.clone()))
            },
            _ => PersistentVector::from_slice(&m.items[..n / 2]).concat(&PersistentVector::from_slice(&m.items[n / 2..])),
        }
    }
    fn view(&self) -> M<T> {
        M::items(self.iter().cloned().collect())
    }
}
impl<T: Clone> Sub<T> for Id<T> {
    const K: K = K::Id;
    fn mk(m: &M<T>) -> Self {
        Id::new(m.items[0].clone())
    }
    fn view(&self) -> M<T> {
        M::one(self.clone().into_inner())
    }
}
impl<T: Clone> Sub<T> for Writer<Vec<String>, T> {
    const K: K = K::Writer;
    fn mk(m: &M<T>) -> Self {
        Writer::new(m.log.clone(), m.items[0].clone())
    }
    fn view(&self) -> M<T> {
        let (log, v) = self.clone().run();
        M { items: vec![v], errs: vec![], log }
    }
}
macro_rules! newtype {
    ($($t:ident),*) => { $(impl<T: Clone> Sub<T> for $t<T> {
        const K: K = K::One;
        fn mk(m: &M<T>) -> Self { $t(m.items[0].clone()) }
        fn view(&self) -> M<T> { M::one(self.0.clone()) }
    })* };
}
newtype!(Min, Max, Sum, Product);
impl<T: Clone> Sub<T> for First<T> {
    const K: K = K::First;
    fn mk(m: &M<T>) -> Self {
        First(m.items.first().cloned())
    }
    fn view(&self) -> M<T> {
        M::items(self.0.iter().cloned().collect())
    }
}
impl<T: Clone> Sub<T> for Last<T> {
    const K: K = K::Last;
    fn mk(m: &M<T>) -> Self {
        Last(m.items.first().cloned())
    }
    fn view(&self) -> M<T> {
        M::items(self.0.iter().cloned().collect())
    }
}
