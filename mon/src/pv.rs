//! Random histories over persistent vectors with a plain-list model.
use crate::track::Tr;
use crate::{Ctx, Fun, Rng, quiet};
use rustica::pvec::PersistentVector as PV;
use rustica::traits::foldable::Foldable;
use rustica::traits::functor::Functor;
use rustica::traits::monoid::Monoid;
use rustica::traits::semigroup::Semigroup;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Elem: Clone + Ord + Hash + Debug + 'static {
    fn mk(v: i64) -> Self;
    fn val(&self) -> i64;
}
impl Elem for i64 {
    fn mk(v: i64) -> i64 {
        v
    }
    fn val(&self) -> i64 {
        *self
    }
}
impl Elem for String {
    fn mk(v: i64) -> String {
        format!("{:012}", v + 500_000_000)
    }
    fn val(&self) -> i64 {
        self.parse::<i64>().map(|x| x - 500_000_000).unwrap_or(i64::MIN)
    }
}
impl Elem for Tr {
    fn mk(v: i64) -> Tr {
        Tr::new(v)
    }
    fn val(&self) -> i64 {
        if self.ok() { self.v } else { i64::MIN }
    }
}
pub fn mkv<T: Elem>(m: &[i64]) -> Vec<T> {
    m.iter().map(|x| T::mk(*x)).collect()
}

/// Full content comparison through iteration, indexing and ends.
pub fn same<T: Elem>(p: &PV<T>, m: &[i64]) -> Result<(), String> {
    if p.len() != m.len() {
        return Err(format!("len {} want {}", p.len(), m.len()));
    }
    if p.is_empty() != m.is_empty() {
        return Err("is_empty".into());
    }
    let mut n = 0;
    for x in p.iter() {
        if n >= m.len() {
            return Err("iter yields too many".into());
        }
        if x.val() != m[n] {
            return Err(format!("iter[{n}] = {} want {} (len {})", x.val(), m[n], m.len()));
        }
        n += 1;
    }
    if n != m.len() {
        return Err(format!("iter yields {n} of {}", m.len()));
    }
    if p.first().map(|x| x.val()) != m.first().copied() {
        return Err("first".into());
    }
    if p.last().map(|x| x.val()) != m.last().copied() {
        return Err("last".into());
    }
    if p.get(m.len()).is_some() {
        return Err("get(len) is some".into());
    }
    Ok(())
}

pub struct Item<T> {
    pub p: PV<T>,
    pub m: Vec<i64>,
}
pub struct Pool<T> {
    pub items: Vec<Item<T>>,
    pub next: i64,
    pub log: Vec<String>,
    pub max_len: usize,
    /// small value domain (so that equal values meet) instead of unique values
    pub small_values: bool,
}
pub const SIZES: &[usize] = &[
    0, 1, 2, 3, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 256, 320, 512, 513, 1000,
    1984, 2047, 2048, 2049, 2112, 2113, 2200, 4096, 4097,
];
pub fn size(r: &mut Rng, max: usize) -> usize {
    let s = match r.below(4) {
        0 => *r.pick(SIZES),
        1 => r.below(70),
        2 => r.below(200),
        _ => 60 + r.below(80),
    };
    s.min(max)
}
pub fn index(r: &mut Rng, len: usize) -> usize {
    match r.below(8) {
        0 => 0,
        1 => len,
        2 => len + 1 + r.below(3),
        3 => len.saturating_sub(1 + r.below(3)),
        4 => (r.below(len / 64 + 1) * 64 + r.below(3)).saturating_sub(1),
        _ => r.below(len + 1),
    }
}

impl<T: Elem> Default for Pool<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Elem> Pool<T> {
    pub fn new() -> Self {
        Pool { items: vec![], next: 1, log: vec![], max_len: 6000, small_values: false }
    }
    pub fn value(&mut self, r: &mut Rng) -> i64 {
        if self.small_values {
            return r.range(0, 3);
        }
        self.next += 1;
        self.next
    }
    pub fn values(&mut self, r: &mut Rng, n: usize) -> Vec<i64> {
        (0..n).map(|_| self.value(r)).collect()
    }
    pub fn hist(&self) -> String {
        format!("history (slot numbers refer to pool positions): {}", self.log.join("; "))
    }
    /// keeps the pool bounded
    pub fn put(&mut self, r: &mut Rng, p: PV<T>, m: Vec<i64>, cap: usize) -> usize {
        if self.items.len() >= cap {
            let i = r.below(self.items.len());
            self.items[i] = Item { p, m };
            i
        } else {
            self.items.push(Item { p, m });
            self.items.len() - 1
        }
    }

    /// A fresh version by one of the constructors.
    pub fn construct(&mut self, cx: &mut Ctx, r: &mut Rng, cap: usize) {
        let n = size(r, self.max_len);
        let m = self.values(r, n);
        let k = r.below(9);
        let mm = m.clone();
        let name = ["new/unit", "from_slice", "from_iter", "from_vec", "push_back*", "push_front*", "extend", "cache_policy", "mixed_push"][k];
        self.log.push(format!("{name}({n})"));
        let (mut rr, mode) = (r.split(), r.below(7) as u64);
        let built = cx.guard(&format!("pv.{name}"), || self.hist(), || {
            let v: Vec<T> = mkv(&mm);
            match k {
                0 => match mm.len() {
                    1 => (PV::unit(v[0].clone()), mm),
                    _ => (if rr.chance(1, 2) { PV::new() } else { PV::default() }, vec![]),
                },
                1 => (PV::from_slice(&v), mm),
                2 => (crate::hinted_as(mode, v).collect(), mm),
                3 => (PV::from(v), mm),
                4 => {
                    let mut p = PV::new();
                    for x in v {
                        p = p.push_back(x);
                    }
                    (p, mm)
                },
                5 => {
                    let mut p = PV::new();
                    for x in v.into_iter().rev() {
                        p = p.push_front(x);
                    }
                    (p, mm)
                },
                6 => {
                    let mut p = PV::new();
                    p.extend(crate::hinted_as(mode, v));
                    (p, mm)
                },
                7 if rr.chance(1, 4) => {
                    let mut p = PV::with_cache_policy(());
                    p.extend(crate::hinted_as(mode, v));
                    (p, mm)
                },
                7 => (PV::from_slice_with_cache_policy(&v, ()), mm),
                _ => {
                    // pushes alternate between both ends
                    let mut p = PV::new();
                    let mut out = std::collections::VecDeque::new();
                    for x in mm {
                        if rr.chance(1, 2) {
                            p = p.push_back(T::mk(x));
                            out.push_back(x);
                        } else {
                            p = p.push_front(T::mk(x));
                            out.push_front(x);
                        }
                    }
                    (p, out.into_iter().collect())
                },
            }
        });
        if let Some((p, m)) = built {
            self.judge(cx, &format!("pv.{name}"), &p, &m);
            self.put(r, p, m, cap);
        }
    }
    pub fn judge(&self, cx: &mut Ctx, sig: &str, p: &PV<T>, m: &[i64]) {
        let res = cx.guard(sig, || self.hist(), || same(p, m));
        if let Some(Err(e)) = res {
            cx.violation(sig.to_string(), format!("{e}\n{}", self.hist()));
        }
        cx.count("oracle_checks", 1);
    }

    /// One structural step deriving new version(s). Returns indexes of slots written.
    pub fn step(&mut self, cx: &mut Ctx, r: &mut Rng, cap: usize) {
        if self.items.is_empty() || r.chance(1, 12) {
            self.construct(cx, r, cap);
            return;
        }
        let a = r.below(self.items.len());
        let b = r.below(self.items.len());
        let len = self.items[a].m.len();
        let mut fresh: Vec<(PV<T>, Vec<i64>)> = vec![];
        let pa = self.items[a].p.clone();
        let ma = self.items[a].m.clone();
        let op = r.below(17);
        let mut rr = r.split();
        let mut sig = String::new();
        match op {
            0 | 1 => {
                // bulk push
                let k = match r.below(4) {
                    0 => 1,
                    1 => 64 + r.below(3),
                    2 => r.below(140),
                    _ => r.below(5),
                };
                let front = op == 1;
                sig = if front { "pv.push_front".into() } else { "pv.push_back".into() };
                self.log.push(format!("{}x{k}(#{a} len {len})", if front { "push_front" } else { "push_back" }));
                let vs = self.values(r, k);
                let mut m = ma;
                let mut inter = vec![];
                let p = cx.guard(&sig, || self.hist(), || {
                    let mut p = pa;
                    for (i, x) in vs.iter().enumerate() {
                        p = if front { p.push_front(T::mk(*x)) } else { p.push_back(T::mk(*x)) };
                        if i == k / 2 {
                            inter.push(p.clone());
                        }
                    }
                    p
                });
                let full: Vec<i64> = if front {
                    vs.iter().rev().copied().chain(m.iter().copied()).collect()
                } else {
                    m.extend(vs.iter().copied());
                    m
                };
                if let Some(p) = p {
                    if let Some(mid) = inter.pop() {
                        let j = k / 2 + 1;
                        let mm = if front { full[k - j..].to_vec() } else { full[..full.len() - (k - j)].to_vec() };
                        fresh.push((mid, mm));
                    }
                    fresh.push((p, full));
                }
            },
            2 | 3 => {
                let front = op == 3;
                let k = match r.below(5) {
                    0 => 1,
                    1 => len,
                    2 => 65,
                    3 => len + 1,
                    _ => r.below(len + 1),
                };
                sig = if front { "pv.pop_front".into() } else { "pv.pop_back".into() };
                self.log.push(format!("{}x{k}(#{a} len {len})", if front { "pop_front" } else { "pop_back" }));
                let mut m: std::collections::VecDeque<i64> = ma.into();
                let mut p = pa;
                for _ in 0..k {
                    let want = if front { m.pop_front() } else { m.pop_back() };
                    let got = cx.guard(&sig, || self.hist(), || if front { p.pop_front() } else { p.pop_back() });
                    let Some(got) = got else { return };
                    match (got, want) {
                        (Some((np, x)), Some(w)) => {
                            cx.count("oracle_checks", 1);
                            if x.val() != w || np.len() != m.len() {
                                cx.violation(&*sig, format!("popped {} (remaining {}) want {w} (remaining {})\n{}", x.val(), np.len(), m.len(), self.hist()));
                                return;
                            }
                            p = np;
                        },
                        (None, None) => break,
                        (g, w) => {
                            let g = g.map(|x| x.1.val());
                            cx.violation(&*sig, format!("popped {g:?} want {w:?} at remaining {}\n{}", m.len(), self.hist()));
                            return;
                        },
                    }
                }
                fresh.push((p, m.into()));
            },
            4 => {
                let i = index(r, len);
                let x = self.value(r);
                sig = "pv.update".into();
                self.log.push(format!("update(#{a} len {len}, {i})"));
                let mut m = ma.clone();
                if i < len {
                    m[i] = x;
                }
                if let Some(p) = cx.guard(&sig, || self.hist(), || pa.update(i, T::mk(x))) {
                    fresh.push((p, m.clone()));
                }
                let t = cx.guard("pv.try_update", || self.hist(), || pa.try_update(i, T::mk(x)));
                match t {
                    Some(Ok(p)) if i < len => fresh.push((p, m)),
                    Some(Err(e)) if i >= len => {
                        let s = format!("{e:?}");
                        cx.check("pv.try_update.error", s.contains(&i.to_string()) && s.contains(&len.to_string()), || s.clone());
                    },
                    None => {},
                    Some(o) => cx.violation("pv.try_update", format!("index {i} len {len} ok={} \n{}", o.is_ok(), self.hist())),
                }
            },
            5 => {
                let i = index(r, len);
                let x = self.value(r);
                sig = "pv.insert".into();
                self.log.push(format!("insert(#{a} len {len}, {i})"));
                let mut m = ma;
                m.insert(i.min(len), x);
                if let Some(p) = cx.guard(&sig, || self.hist(), || pa.insert(i, T::mk(x))) {
                    fresh.push((p, m));
                }
            },
            6 => {
                let i = index(r, len);
                sig = "pv.remove".into();
                self.log.push(format!("remove(#{a} len {len}, {i})"));
                let mut m = ma;
                let got = cx.guard(&sig, || self.hist(), || pa.remove(i));
                match got {
                    Some(Some(p)) if i < len => {
                        m.remove(i);
                        fresh.push((p, m));
                    },
                    Some(None) if i >= len => {},
                    None => {},
                    Some(o) => cx.violation(&*sig, format!("remove({i}) of len {len} is_some={}\n{}", o.is_some(), self.hist())),
                }
            },
            7 | 8 | 9 => {
                let lb = self.items[b].m.len();
                if len + lb > self.max_len * 2 {
                    return;
                }
                sig = "pv.concat".into();
                self.log.push(format!("concat(#{a} len {len}, #{b} len {lb})"));
                let pb = self.items[b].p.clone();
                let mut m = ma;
                m.extend(self.items[b].m.iter().copied());
                let how = rr.below(3);
                if let Some(p) = cx.guard(&sig, || self.hist(), || match how {
                    0 => pa.concat(&pb),
                    1 => pa.combine(&pb),
                    _ => pa.combine_owned(pb),
                }) {
                    fresh.push((p, m));
                }
            },
            10 | 11 => {
                let i = index(r, len);
                sig = "pv.split_at".into();
                self.log.push(format!("split_at(#{a} len {len}, {i})"));
                if let Some((l, rgt)) = cx.guard(&sig, || self.hist(), || pa.split_at(i)) {
                    let k = i.min(len);
                    fresh.push((l, ma[..k].to_vec()));
                    fresh.push((rgt, ma[k..].to_vec()));
                }
            },
            12 => {
                let i = index(r, len);
                let take = rr.chance(1, 2);
                sig = if take { "pv.take".into() } else { "pv.skip".into() };
                self.log.push(format!("{}(#{a} len {len}, {i})", &sig[3..]));
                let k = i.min(len);
                if let Some(p) = cx.guard(&sig, || self.hist(), || if take { pa.take(i) } else { pa.skip(i) }) {
                    fresh.push((p, if take { ma[..k].to_vec() } else { ma[k..].to_vec() }));
                }
            },
            13 => {
                let f = Fun::gen_(r);
                let which = rr.below(6);
                let name = ["filter", "map", "filter_map", "partition", "sorted", "dedup"][which];
                sig = format!("pv.{name}");
                self.log.push(format!("{name}(#{a} len {len}, {f:?})"));
                match which {
                    0 => {
                        if let Some(p) = cx.guard(&sig, || self.hist(), || pa.filter(|x| f.pred(x.val()))) {
                            fresh.push((p, ma.into_iter().filter(|x| f.pred(*x)).collect()));
                        }
                    },
                    1 => {
                        if let Some(p) = cx.guard(&sig, || self.hist(), || match rr.below(3) {
                            0 => pa.map(|x| T::mk(f.ap(x.val()))),
                            1 => pa.fmap(|x| T::mk(f.ap(x.val()))),
                            _ => pa.fmap_owned(|x| T::mk(f.ap(x.val()))),
                        }) {
                            fresh.push((p, ma.into_iter().map(|x| f.ap(x)).collect()));
                        }
                    },
                    2 => {
                        if let Some(p) = cx.guard(&sig, || self.hist(), || {
                            pa.filter_map(|x| if f.pred(x.val()) { Some(T::mk(f.ap(x.val()))) } else { None })
                        }) {
                            fresh.push((p, ma.into_iter().filter(|x| f.pred(*x)).map(|x| f.ap(x)).collect()));
                        }
                    },
                    3 => {
                        if let Some((p, q)) = cx.guard(&sig, || self.hist(), || pa.partition(|x| f.pred(x.val()))) {
                            fresh.push((p, ma.iter().copied().filter(|x| f.pred(*x)).collect()));
                            fresh.push((q, ma.into_iter().filter(|x| !f.pred(*x)).collect()));
                        }
                    },
                    4 => {
                        if let Some(p) = cx.guard(&sig, || self.hist(), || pa.sorted()) {
                            let mut m = ma;
                            m.sort();
                            fresh.push((p, m));
                        }
                    },
                    _ => {
                        // make duplicates first
                        if let Some(p) = cx.guard(&sig, || self.hist(), || {
                            pa.map(|x| T::mk(x.val() / 3)).dedup()
                        }) {
                            let mut m: Vec<i64> = ma.into_iter().map(|x| x / 3).collect();
                            m.dedup();
                            fresh.push((p, m));
                        }
                    },
                }
            },
            14 => {
                let f = Fun::gen_(r);
                if len > 2000 {
                    return;
                }
                sig = "pv.flat_map".into();
                self.log.push(format!("flat_map(#{a} len {len}, {f:?})"));
                let g = |x: i64| -> Vec<i64> { (0..f.small(x, 3)).map(|i| f.ap(x) + i as i64).collect() };
                if let Some(p) = cx.guard(&sig, || self.hist(), || pa.flat_map(|x| mkv::<T>(&g(x.val())))) {
                    fresh.push((p, ma.into_iter().flat_map(g).collect()));
                }
            },
            15 => {
                sig = "pv.extend".into();
                let n = r.below(80);
                let vs = self.values(r, n);
                self.log.push(format!("extend(#{a} len {len}, {})", vs.len()));
                if let Some(p) = cx.guard(&sig, || self.hist(), || {
                    let mut p = pa.clone();
                    p.extend(crate::hinted(r, mkv::<T>(&vs)));
                    p
                }) {
                    let mut m = ma;
                    m.extend(vs);
                    fresh.push((p, m));
                }
            },
            _ => {
                // chunk then re-concatenate the chunks
                let k = match r.below(4) {
                    0 => 0,
                    1 => 1 + r.below(5),
                    2 => 64,
                    _ => 1 + r.below(len + 2),
                };
                sig = "pv.chunk".into();
                self.log.push(format!("chunk(#{a} len {len}, {k})"));
                if k > 0 && len / k > 600 {
                    return;
                }
                if let Some(cs) = cx.guard(&sig, || self.hist(), || pa.chunk(k)) {
                    let want: Vec<Vec<i64>> = if k == 0 { vec![] } else { ma.chunks(k).map(|c| c.to_vec()).collect() };
                    let got: Option<Vec<Vec<i64>>> = cx.guard(&sig, || self.hist(), || {
                        cs.iter().map(|c| c.iter().map(|x| x.val()).collect()).collect()
                    });
                    if let Some(got) = got {
                        cx.eq(&sig, &got, &want, || self.hist());
                    }
                    if k > 0
                        && let Some(p) = cx.guard("pv.concat", || self.hist(), || {
                            let mut acc = <PV<T> as Monoid>::empty();
                            for c in cs.iter() {
                                acc = acc.concat(c);
                            }
                            acc
                        })
                    {
                        self.log.push("(chunks concatenated again)".into());
                        sig = "pv.concat".into();
                        fresh.push((p, ma));
                    }
                }
            },
        }
        for (p, m) in fresh {
            self.judge(cx, &sig, &p, &m);
            if m.len() <= self.max_len {
                let s = self.put(r, p, m, cap);
                let l = self.log.len();
                if l > 0 {
                    self.log[l - 1].push_str(&format!(" -> #{s}"));
                }
            }
        }
        if self.log.len() > 400 {
            self.log.drain(..200);
        }
    }

    /// Pure observers compared against the list.
    pub fn observe(&mut self, cx: &mut Ctx, r: &mut Rng) {
        if self.items.is_empty() {
            return;
        }
        let a = r.below(self.items.len());
        let b = r.below(self.items.len());
        let it = &self.items[a];
        let (p, m) = (&it.p, &it.m);
        let len = m.len();
        let h = || format!("observing #{a} (len {len}); {}", self.hist());
        for _ in 0..6 {
            let i = index(r, len);
            let g = cx.guard("pv.get", h, || p.get(i).map(|x| x.val()));
            if let Some(g) = g {
                cx.eq("pv.get", &g, &m.get(i).copied(), || format!("index {i}; {}", h()));
            }
            let g = cx.guard("pv.try_get", h, || p.try_get(i).map(|x| x.val()).map_err(|e| format!("{e:?}")));
            if let Some(g) = g {
                cx.check(
                    "pv.try_get",
                    match (&g, m.get(i)) {
                        (Ok(x), Some(y)) => x == y,
                        (Err(s), None) => s.contains(&i.to_string()) && s.contains(&len.to_string()),
                        _ => false,
                    },
                    || format!("try_get({i}) = {g:?}; {}", h()),
                );
            }
            let g = quiet(|| p[i].val());
            cx.check("pv.index", g.as_ref().ok().copied() == m.get(i).copied(), || format!("[{i}] = {g:?}; {}", h()));
        }
        if let Some((tv, vv)) = cx.guard("pv.to_vec", h, || {
            (p.to_vec().iter().map(|x| x.val()).collect::<Vec<_>>(), Vec::<T>::from(p.clone()).iter().map(|x| x.val()).collect::<Vec<_>>())
        }) {
            cx.eq("pv.to_vec", &tv, m, h);
            cx.eq("pv.into_vec", &vv, m, h);
        }
        // iterators: size hints stay exact while consuming; by-value and by-reference agree
        let stop = r.below(len + 2);
        if let Some(res) = cx.guard("pv.iter", h, || {
            let mut it = p.iter();
            for k in 0..stop.min(len) {
                if it.len() != len - k || it.size_hint() != (len - k, Some(len - k)) {
                    return Err(format!("size_hint {:?} after {k}", it.size_hint()));
                }
                if it.next().map(|x| x.val()) != Some(m[k]) {
                    return Err(format!("element {k}"));
                }
            }
            let rest: Vec<i64> = it.map(|x| x.val()).collect();
            if rest != m[stop.min(len)..] {
                return Err("rest differs".into());
            }
            let mut own = p.clone().into_iter();
            if own.len() != len {
                return Err("into_iter len".into());
            }
            let o: Vec<i64> = own.by_ref().map(|x| x.val()).collect();
            if own.next().is_some() || own.len() != 0 {
                return Err("into_iter not fused / len".into());
            }
            if &o != m {
                return Err("into_iter differs".into());
            }
            let rf: Vec<i64> = (p).into_iter().map(|x| x.val()).collect();
            if &rf != m {
                return Err("&into_iter differs".into());
            }
            if p.iter().nth(stop).map(|x| x.val()) != m.get(stop).copied() {
                return Err("nth".into());
            }
            Ok(())
        }) {
            cx.check("pv.iter", res.is_ok(), || format!("{res:?}; {}", h()));
        }
        for by_ref in [true, false] {
            let res = cx.guard("pv.iter_drill", h, || {
                if by_ref {
                    crate::drill(r, p.iter(), |x| x.val(), m, true)
                } else {
                    crate::drill(r, p.clone().into_iter(), |x| x.val(), m, true)
                }
            });
            if let Some(res) = res {
                cx.check("pv.iter_drill", res.is_ok(), || format!("{res:?}; {}", h()));
            }
        }
        let f = Fun::gen_(r);
        if let Some(x) = cx.guard("pv.fold", h, || {
            (
                p.fold(1i64, |acc, x| f.ap2(acc, x.val())),
                p.fold_left(&1i64, |acc, x| f.ap2(*acc, x.val())),
                p.fold_right(&1i64, |x, acc| f.ap2(*acc, x.val())),
                p.length(),
            )
        }) {
            let want = (
                m.iter().fold(1i64, |acc, x| f.ap2(acc, *x)),
                m.iter().fold(1i64, |acc, x| f.ap2(acc, *x)),
                m.iter().rev().fold(1i64, |acc, x| f.ap2(acc, *x)),
                len,
            );
            cx.eq("pv.fold", &x, &want, h);
        }
        let q = &self.items[b];
        if let Some(z) = cx.guard("pv.zip", h, || p.zip(&q.p).iter().map(|(x, y)| (x.val(), y.val())).collect::<Vec<_>>()) {
            let want: Vec<(i64, i64)> = m.iter().copied().zip(q.m.iter().copied()).collect();
            cx.eq("pv.zip", &z, &want, || format!("with #{b}; {}", h()));
        }
    }
}
