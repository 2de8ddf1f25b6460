//! C30: serialization round-trips every serializable value and keeps distinct values distinct.
use mon::*;
use rustica::datatypes::choice::Choice;
use rustica::datatypes::either::Either;
use rustica::datatypes::id::Id;
use rustica::datatypes::maybe::Maybe;
use rustica::datatypes::validated::Validated;
use rustica::datatypes::wrapper::{first::First, last::Last, max::Max, min::Min, product::Product, sum::Sum};
use rustica::datatypes::writer::Writer;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use smallvec::SmallVec;
use std::collections::BTreeMap;
use std::fmt::Debug;

trait G: Serialize + DeserializeOwned + PartialEq + Debug + Clone {
    fn g(r: &mut Rng) -> Self;
}
macro_rules! prim {
    ($($t:ty),*) => { $(impl G for $t {
        fn g(r: &mut Rng) -> Self {
            match r.below(6) { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => 0, 3 => 1, 4 => r.below(100) as $t, _ => r.u64() as $t }
        }
    })* };
}
prim!(i8, u8, i32, i64, u64, i128, u128);
impl G for bool {
    fn g(r: &mut Rng) -> Self {
        r.chance(1, 2)
    }
}
impl G for () {
    fn g(_: &mut Rng) -> Self {}
}
impl G for char {
    fn g(r: &mut Rng) -> Self {
        *r.pick(&['a', '"', '\\', '\u{0}', '\n', 'é', '漢', '\u{1F600}', '\u{FFFD}'])
    }
}
impl G for String {
    fn g(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => String::new(),
            // strings that look like the serialized forms themselves
            1 => r.pick(&["null", "Nothing", "Left", "Right", "Valid", "Invalid", "{\"Just\":1}", "[]", "0", "true", "values", "value", "log"]).to_string(),
            _ => (0..r.len_upto(24)).map(|_| char::g(r)).collect(),
        }
    }
}
impl<T: G> G for Option<T> {
    fn g(r: &mut Rng) -> Self {
        r.chance(2, 3).then(|| T::g(r))
    }
}
impl<T: G> G for Vec<T> {
    fn g(r: &mut Rng) -> Self {
        (0..r.len_tail(12)).map(|_| T::g(r)).collect()
    }
}
impl<T: G> G for Box<T> {
    fn g(r: &mut Rng) -> Self {
        Box::new(T::g(r))
    }
}
impl<A: G, B: G> G for (A, B) {
    fn g(r: &mut Rng) -> Self {
        (A::g(r), B::g(r))
    }
}
impl<T: G> G for BTreeMap<String, T> {
    fn g(r: &mut Rng) -> Self {
        (0..r.len_upto(4)).map(|_| (String::g(r), T::g(r))).collect()
    }
}
/// a user type with optional and defaulted fields around library values
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct User {
    id: Id<u64>,
    nick: Maybe<String>,
    contact: Either<String, i64>,
    tags: Choice<String>,
    score: Validated<String, Sum<i64>>,
    best: Max<i64>,
}
impl G for User {
    fn g(r: &mut Rng) -> Self {
        User { id: G::g(r), nick: G::g(r), contact: G::g(r), tags: G::g(r), score: G::g(r), best: G::g(r) }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "kind")]
enum Tagged {
    A { x: Maybe<i64>, y: Choice<i64> },
    B { x: Either<i64, i64>, y: Validated<String, i64> },
    C,
}
impl G for Tagged {
    fn g(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Tagged::A { x: G::g(r), y: G::g(r) },
            1 => Tagged::B { x: G::g(r), y: G::g(r) },
            _ => Tagged::C,
        }
    }
}
impl<T: G> G for Choice<T> {
    fn g(r: &mut Rng) -> Self {
        // lengths around the inline capacity, and empty
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 8,
            3 => 9,
            _ => r.below(14),
        };
        (0..n).map(|_| T::g(r)).collect()
    }
}
impl<L: G, R: G> G for Either<L, R> {
    fn g(r: &mut Rng) -> Self {
        if r.chance(1, 2) { Either::Left(L::g(r)) } else { Either::Right(R::g(r)) }
    }
}
impl<T: G> G for Maybe<T> {
    fn g(r: &mut Rng) -> Self {
        if r.chance(1, 3) { Maybe::Nothing } else { Maybe::Just(T::g(r)) }
    }
}
impl<E: G, A: G> G for Validated<E, A> {
    fn g(r: &mut Rng) -> Self {
        if r.chance(1, 3) {
            return Validated::Valid(A::g(r));
        }
        let n = *r.pick(&[0, 1, 1, 2, 3, 7, 8, 9, 12, 17]);
        Validated::Invalid((0..n).map(|_| E::g(r)).collect::<SmallVec<_>>())
    }
}
macro_rules! wrap {
    ($($w:ident),*) => { $(impl<T: G> G for $w<T> { fn g(r: &mut Rng) -> Self { $w(T::g(r)) } })* };
}
wrap!(Min, Max, Sum, Product);
impl<T: G> G for First<T> {
    fn g(r: &mut Rng) -> Self {
        First(G::g(r))
    }
}
impl<T: G> G for Last<T> {
    fn g(r: &mut Rng) -> Self {
        Last(G::g(r))
    }
}
impl<T: G> G for Id<T> {
    fn g(r: &mut Rng) -> Self {
        Id::new(T::g(r))
    }
}
impl<W: G + Monoid, A: G> G for Writer<W, A> {
    fn g(r: &mut Rng) -> Self {
        let (a, w) = (A::g(r), W::g(r));
        if r.chance(1, 4) { Writer::new(W::empty().combine(&w), a) } else { Writer::new(w, a) }
    }
}
fn reads<T: G>(cx: &mut Ctx, nm: &str, how: &str, v: &T, got: Result<T, serde_json::Error>, js: &str) {
    let sig = format!("{nm}.{how}");
    match got {
        Ok(b) => cx.eq(&sig, &b, v, || format!("read back from {js}")),
        Err(e) => cx.check(&sig, false, || format!("{v:?} written as {js} is rejected: {e}")),
    }
}
fn rt<T: G>(cx: &mut Ctx, r: &mut Rng, nm: &'static str) {
    let vals: Vec<T> = (0..5).map(|_| T::g(r)).collect();
    let mut forms: Vec<(String, String)> = vec![];
    for v in &vals {
        let Some(w) = cx.guard(&format!("{nm}.write"), || format!("{v:?}"), || serde_json::to_string(v)) else { continue };
        let js = match w {
            Ok(js) => js,
            Err(e) => {
                cx.check(&format!("{nm}.write"), false, || format!("{v:?} cannot be written: {e}"));
                continue;
            },
        };
        cx.case(nm, &js, true, || js.clone());
        reads(cx, nm, "from_str", v, serde_json::from_str::<T>(&js), &js);
        match r.below(4) {
            0 => {
                let p = serde_json::to_string_pretty(v).unwrap_or_default();
                reads(cx, nm, "from_reader", v, serde_json::from_reader::<_, T>(p.as_bytes()), &p)
            },
            1 => {
                let b = serde_json::to_vec(v).unwrap_or_default();
                reads(cx, nm, "from_slice", v, serde_json::from_slice::<T>(&b), &js)
            },
            2 => {
                // as one element of a larger document, read in a stream
                let d = format!("{js} {js}\n{js}");
                let got: Result<Vec<T>, _> = serde_json::Deserializer::from_str(&d).into_iter::<T>().collect();
                match got {
                    Ok(b) => cx.eq(&format!("{nm}.stream"), &b, &vec![v.clone(), v.clone(), v.clone()], || js.clone()),
                    Err(e) => cx.check(&format!("{nm}.stream"), false, || format!("{d}: {e}")),
                }
            },
            _ => {
                // 128-bit numbers have no in-memory tree form
                if !nm.contains("128") {
                    match serde_json::to_value(v) {
                        Ok(t) => {
                            let dbg = t.to_string();
                            reads(cx, nm, "from_value", v, serde_json::from_value::<T>(t), &dbg)
                        },
                        Err(e) => cx.check(&format!("{nm}.to_value"), false, || format!("{v:?}: {e}")),
                    }
                }
            },
        }
        // `Tagged` puts its variant's name among its fields, which only a self-describing format can read back
        if !nm.contains("Tagged") {
            positional(cx, nm, v, r.u64());
        }
        let tree = if nm.contains("128") { js.clone() } else { serde_json::from_str::<serde_json::Value>(&js).map(|t| t.to_string()).unwrap_or(js.clone()) };
        forms.push((js, tree));
        // damaged documents: rejected, or read as a value that itself round-trips
        if r.chance(1, 4) {
            let mut b = forms.last().map(|f| f.0.clone().into_bytes()).unwrap_or_default();
            match r.below(3) {
                0 => b.truncate(r.below(b.len() + 1)),
                1 if !b.is_empty() => {
                    let i = r.below(b.len());
                    b[i] = *r.pick(b"{}[]\",:0a1nl ");
                },
                _ if !b.is_empty() => {
                    b.remove(r.below(b.len()));
                },
                _ => {},
            }
            let shown = String::from_utf8_lossy(&b).into_owned();
            if let Some(got) = cx.guard(&format!("{nm}.damaged"), || shown.clone(), || serde_json::from_slice::<T>(&b)) {
                match got {
                    Ok(v2) => {
                        cx.count("damaged.accepted", 1);
                        let again = serde_json::to_string(&v2).unwrap_or_default();
                        reads(cx, nm, "damaged.round_trip", &v2, serde_json::from_str::<T>(&again), &again)
                    },
                    Err(_) => cx.count("damaged.rejected", 1),
                }
            }
        }
    }
    if forms.len() == vals.len() {
        for i in 0..vals.len() {
            for j in 0..i {
                if vals[i] != vals[j] {
                    cx.count("pairs.distinct", 1);
                    cx.check(&format!("{nm}.distinct"), forms[i].1 != forms[j].1, || format!("{:?} and {:?} are both written as {}", vals[i], vals[j], forms[i].0));
                }
            }
        }
    }
}
/// a format without field names or lengths of its own: what is written must be exactly what is read
fn positional<T: G>(cx: &mut Ctx, nm: &str, v: &T, mark: u64) {
    let doc = (mark, v.clone(), !mark);
    let Some(w) = cx.guard(&format!("{nm}.positional.write"), || format!("{v:?}"), || bincode::serialize(&doc)) else { return };
    let b = match w {
        Ok(b) => b,
        Err(e) => return cx.check(&format!("{nm}.positional.write"), false, || format!("{v:?} cannot be written: {e}")),
    };
    cx.count("positional", 1);
    let Some(got) = cx.guard(&format!("{nm}.positional.read"), || format!("{v:?}"), || bincode::deserialize::<(u64, T, u64)>(&b)) else { return };
    match got {
        Ok(back) => cx.eq(&format!("{nm}.positional"), &back, &doc, || format!("{b:?}")),
        Err(e) => cx.check(&format!("{nm}.positional"), false, || format!("{v:?} written as {b:?} is rejected: {e}")),
    }
}
macro_rules! all {
    ($cx:ident, $r:ident; $($t:ty),* $(,)?) => {{ $( rt::<$t>($cx, $r, stringify!($t)); )* }};
}
type S = String;
fn round(cx: &mut Ctx, r: &mut Rng) {
    all!(cx, r;
        Maybe<i64>, Maybe<S>, Maybe<()>, Maybe<Maybe<i64>>, Maybe<Option<i64>>, Option<Maybe<i64>>, Maybe<Vec<S>>, Maybe<bool>, Maybe<Maybe<()>>, Maybe<u128>,
        Either<i64, i64>, Either<S, i64>, Either<S, S>, Either<(), ()>, Either<Maybe<i64>, Maybe<i64>>, Either<Either<i64, S>, Either<S, i64>>, Either<Option<i64>, ()>, Either<i128, u8>,
        Choice<i64>, Choice<S>, Choice<()>, Choice<Choice<i64>>, Choice<Maybe<S>>, Choice<Option<i64>>, Choice<(S, u64)>, Option<Choice<i64>>, Choice<Either<i64, i64>>,
        Validated<S, i64>, Validated<i64, i64>, Validated<S, S>, Validated<(), ()>, Validated<Vec<S>, Vec<S>>, Validated<Either<i64, S>, Maybe<i64>>, Validated<S, Validated<S, i64>>, Validated<u64, Choice<S>>,
        Id<i64>, Id<S>, Id<()>, Id<Id<i64>>, Id<Maybe<i64>>, Id<Vec<i64>>, Id<Option<S>>, Option<Id<i64>>,
        Min<i64>, Min<S>, Max<i64>, Max<u64>, Sum<i64>, Sum<i32>, Product<i64>, Product<u8>, Sum<i128>, Min<Option<i64>>, Max<Maybe<i64>>, Min<(i64, S)>,
        First<i64>, First<S>, First<u8>, First<Maybe<i64>>, Last<i64>, Last<S>, Last<Vec<i64>>, Last<bool>, Vec<First<i64>>, Vec<Last<S>>,
        Writer<S, i64>, Writer<S, S>, Writer<Vec<S>, i64>, Writer<Vec<i64>, Maybe<S>>, Writer<S, ()>, Writer<S, Writer<S, i64>>, Writer<Sum<i64>, Sum<i64>>, Writer<Vec<S>, Choice<i64>>,
        Vec<Maybe<i64>>, BTreeMap<S, Either<S, i64>>, (Maybe<i64>, Validated<S, i64>), Box<Choice<char>>, Vec<Validated<S, Id<i8>>>,
        User, Tagged, Maybe<User>, Either<Tagged, User>, Choice<Tagged>, Writer<Vec<S>, User>,
    );
}
fn main() {
    main_with("C30", |cx| {
        cx.rule = "read(write(v)) == v through text, bytes, reader, stream and value tree and through a positional binary format, alone and nested; unequal values are written differently".into();
        cx.assumptions = vec!["serde_json stands for self-describing formats and bincode for positional ones; nested Option is used only where the format can tell its levels apart; floating point payloads are left out because their text round-trip is the format's".into()];
        cx.require("pairs.distinct", 10_000);
        cx.require("positional", 10_000);
        cx.require("damaged.rejected", 500);
        cx.require("damaged.accepted", 500);
        let n = cx.n(1_200, 60_000);
        cx.par(8, |cx, _| {
            let mut r = cx.rng.split();
            for _ in 0..n {
                if !cx.go() {
                    break;
                }
                round(cx, &mut r);
            }
        });
    });
}
