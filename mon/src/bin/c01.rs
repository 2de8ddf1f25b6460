use mon::pv::*;
use mon::*;
fn main() {
    main_with("C01", |cx| {
        cx.rule = "a case is one random operation history over a pool of versions (8-60 steps, sizes biased to inline/leaf/branch boundaries); \
                   every result and every step is compared with a plain list. Non-trivial: the history produced at least one tree-sized (>64) version; distinct by full history."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(700, 200000);
        cx.par(8, |cx, _| for i in 0..n {
            if !cx.within(0.7) {
                break;
            }
            let mut r = cx.rng.split();
            match i % 4 {
                0 => run::<String>(cx, &mut r, 1500),
                1 => run::<mon::track::Tr>(cx, &mut r, 1500),
                _ => run::<i64>(cx, &mut r, 6000),
            }
        });
        // few large ones: several levels deep
        let big = cx.n(2, 100);
        let huge_ = cx.n(1, 12);
        let long_ = cx.n(3, 120);
        cx.par(8, |cx, k| {
            if k == 0 {
                for _ in 0..huge_ {
                    let mut r = cx.rng.split();
                    huge(cx, &mut r);
                }
            }
            for _ in 0..big {
            if !cx.go() {
                break;
            }
            let mut r = cx.rng.split();
            large(cx, &mut r);
            }
            for _ in 0..long_ {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                on_small_stack(cx, |cx| long(cx, &mut r));
            }
            if k == 1 {
                let mut r = cx.rng.split();
                on_small_stack(cx, |cx| millions(cx, &mut r));
            }
        });
        for _ in 0..cx.n(1500, 100000) {
            if !cx.go() {
                break;
            }
            let mut r = cx.rng.split();
            keyed(cx, &mut r);
        }
        cx.require("oracle_checks", 5000);
        cx.require("max_version_len", 2049);
        cx.require("max_history_steps", 5000);
    });
}
fn run<T: Elem>(cx: &mut Ctx, r: &mut Rng, max: usize) {
    let mut p = Pool::<T>::new();
    p.max_len = if r.chance(1, 3) { 300 } else { max };
    p.small_values = r.chance(1, 8);
    let steps = if r.chance(1, 2) { 8 + r.below(8) } else { 20 + r.below(if cx.thorough { 400 } else { 60 }) };
    let v0 = cx.violations();
    for _ in 0..steps {
        p.step(cx, r, 8);
        if r.chance(1, 4) {
            p.observe(cx, r);
        }
        if cx.violations() > v0 {
            break;
        }
        cx.count("steps", 1);
        let ml = p.items.iter().map(|x| x.m.len()).max().unwrap_or(0);
        cx.max("max_version_len", ml as u64);
    }
    // all surviving versions must still be intact
    for it in &p.items {
        p.judge(cx, "pv.persist", &it.p, &it.m);
    }
    let nt = p.items.iter().any(|x| x.m.len() > 64);
    let d = p.log.join("; ");
    cx.case("history", &d, nt, || d.clone());
}
fn large(cx: &mut Ctx, r: &mut Rng) {
    let mut p = Pool::<i64>::new();
    let n = *r.pick(&[65536usize, 65537, 131072, 70000, 66000]);
    let vs: Vec<i64> = (0..n as i64).collect();
    let k = r.below(3);
    p.log.push(format!("large n={n} route={k}"));
    let built = cx.guard("pv.large", || p.hist(), || match k {
        0 => rustica::pvec::PersistentVector::from_slice(&vs),
        1 => {
            let mut v = rustica::pvec::PersistentVector::new();
            for x in &vs {
                v = v.push_back(*x);
            }
            v
        },
        _ => {
            let mut v = rustica::pvec::PersistentVector::new();
            for x in vs.iter().rev() {
                v = v.push_front(*x);
            }
            v
        },
    });
    let Some(b) = built else { return };
    p.judge(cx, "pv.large", &b, &vs);
    p.max_len = 300_000;
    p.items.push(Item { p: b, m: vs });
    let s: Vec<i64> = (0..(1 + r.below(3000)) as i64).collect();
    p.items.push(Item { p: rustica::pvec::PersistentVector::from_slice(&s), m: s });
    for _ in 0..8 {
        p.step(cx, r, 5);
        p.observe(cx, r);
    }
    cx.count("large_histories", 1);
    let d = p.log.join("; ");
    cx.case("large", &d, true, || d.clone());
}
/// The workers have large stacks; this runs a closure on a thread with the size every spawned thread has by default.
fn on_small_stack(cx: &mut Ctx, f: impl FnOnce(&mut Ctx) + Send) {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || f(cx)).unwrap().join()).unwrap();
}
/// Very many steps on one vector of modest size: the representation must not degenerate with the number of operations.
/// (Runs on a thread with the usual 2 MB stack: a path that grows with every step ends in a stack overflow.)
fn long(cx: &mut Ctx, r: &mut Rng) {
    use rustica::pvec::PersistentVector as PV;
    const OPS: [&str; 16] = [
        "insert(any)", "insert(1)", "insert(len-1)", "insert(middle)", "remove(any)", "remove(1)", "rotate(any)", "small.concat(v)", "v.concat(small)", "push_back", "push_front",
        "pop_back", "pop_front", "update", "drop range", "rotate(1)",
    ];
    let cap = 300 + r.below(3_000);
    let mut m: Vec<u32> = (0..(65 + r.below(cap)) as u32).collect();
    let mut v: PV<u32> = m.iter().copied().collect();
    let mut next = 1_000_000u32;
    let mut log: Vec<String> = vec![format!("from {} elements, at most {cap}", m.len())];
    let v0 = cx.violations();
    let total = 24_000;
    let mut step = 0;
    while step < total && cx.violations() == v0 && cx.go() {
        // one to three kinds of operation, taken in turn or at random, for a while
        let mix: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(OPS.len())).collect();
        let turns = r.chance(1, 2);
        let phase = 200 + r.below(8_000);
        log.push(format!("{phase} times {}{:?}", if turns { "in turn " } else { "any of " }, mix.iter().map(|&k| OPS[k]).collect::<Vec<_>>()));
        for i in 0..phase {
            let op = if turns { mix[i % mix.len()] } else { *r.pick(&mix) };
            let len = m.len();
            let at = r.below(len.max(1));
            next += 1;
            let size = if r.chance(1, 20) { 200 } else { 50 };
            let small: Vec<u32> = (0..1 + r.below(size) as u32).map(|k| next.wrapping_mul(1000) + k).collect();
            let now = step;
            let hist = || format!("step {now} {} at {at} of {len} after: {}", OPS[op], log.join("; "));
            let out = cx.guard("pv.long", hist, || match op {
                0 => v.insert(at, next),
                1 => v.insert(1, next),
                2 => v.insert(len.saturating_sub(1), next),
                3 => v.insert(len / 2, next),
                4 => v.remove(at).unwrap_or_else(PV::new),
                5 => v.remove(1.min(len.saturating_sub(1))).unwrap_or_else(PV::new),
                6 => { let (a, b) = v.split_at(at); b.concat(&a) },
                7 => small.iter().copied().collect::<PV<u32>>().concat(&v),
                8 => v.concat(&small.iter().copied().collect()),
                9 => v.push_back(next),
                10 => v.push_front(next),
                11 => v.pop_back().map_or_else(PV::new, |x| x.0),
                12 => v.pop_front().map_or_else(PV::new, |x| x.0),
                13 => v.update(at, next),
                14 => v.take(at).concat(&v.skip(at + small.len())),
                _ => { let (a, b) = v.split_at(1); b.concat(&a) },
            });
            let Some(out) = out else { return };
            match op {
                0 => m.insert(at, next),
                1 => m.insert(1.min(len), next),
                2 => m.insert(len.saturating_sub(1), next),
                3 => m.insert(len / 2, next),
                4 if len > 0 => drop(m.remove(at)),
                5 if len > 0 => drop(m.remove(1.min(len - 1))),
                6 => m.rotate_left(at),
                7 => drop(m.splice(0..0, small.iter().copied())),
                8 => m.extend(&small),
                9 => m.push(next),
                10 => m.insert(0, next),
                11 => drop(m.pop()),
                12 if len > 0 => drop(m.remove(0)),
                13 if len > 0 => m[at] = next,
                14 => drop(m.drain(at.min(len)..(at + small.len()).min(len))),
                15 if len > 0 => m.rotate_left(1),
                _ => {},
            }
            v = out;
            step += 1;
            cx.eq("pv.long.len", &v.len(), &m.len(), hist);
            for at in [0, m.len() / 2, m.len().saturating_sub(1), r.below(m.len().max(1)), m.len()] {
                cx.eq("pv.long.get", &v.get(at), &m.get(at), hist);
            }
            if step % 256 == 0 || i + 1 == phase {
                cx.check("pv.long.iter", v.iter().copied().eq(m.iter().copied()), hist);
            }
            if cx.violations() > v0 {
                return;
            }
            // keep the size in bounds without resetting the shape
            if m.len() > cap {
                let cut = m.len() / 3;
                if r.chance(1, 2) {
                    v = v.skip(cut);
                    m.drain(..cut);
                } else {
                    v = v.take(m.len() - cut);
                    m.truncate(m.len() - cut);
                }
            } else if m.len() < 20 {
                let more: Vec<u32> = (0..(100 + r.below(cap)) as u32).collect();
                v = v.concat(&more.iter().copied().collect());
                m.extend(more);
            }
        }
    }
    cx.count("long_steps", step as u64);
    cx.max("max_history_steps", step as u64);
    cx.case("long", &log.join("; "), true, || log.join("; "));
}
/// Millions of single pushes at either end, then one of each operation.
fn millions(cx: &mut Ctx, r: &mut Rng) {
    use rustica::pvec::PersistentVector as PV;
    let n = 3_000_000 + r.below(500_000);
    let front = r.chance(1, 2);
    let d = || format!("{n} single pushes at the {}", if front { "front" } else { "back" });
    let at = |i: usize| if front { (n - 1 - i) as u32 } else { i as u32 };
    let places = [0, 1, n / 2, r.below(n), n - 2, n - 1];
    let cut = r.below(n);
    let got = cx.guard("pv.millions", d, || {
        let mut v: PV<u32> = PV::new();
        for i in 0..n as u32 {
            v = if front { v.push_front(i) } else { v.push_back(i) };
        }
        let seen: Vec<_> = places.iter().map(|&i| (v.get(i).copied(), v.update(i, 5).get(i).copied())).collect();
        let (a, b) = v.split_at(cut);
        let back = v.pop_back().map(|(w, x)| (w.len(), x));
        let fore = v.pop_front().map(|(w, x)| (w.len(), x));
        let sides = (a.len(), b.len(), b.get(0).copied());
        let j = b.concat(&a);
        (seen, back, fore, sides, (j.len(), j.get(0).copied(), j.get(n - 1).copied()), v.insert(cut, 9).get(cut).copied())
    });
    let Some((seen, back, fore, sides, joined, ins)) = got else { return };
    cx.eq("pv.millions.get", &seen, &places.iter().map(|&i| (Some(at(i)), Some(5))).collect::<Vec<_>>(), d);
    cx.eq("pv.millions.pop_back", &back, &Some((n - 1, at(n - 1))), d);
    cx.eq("pv.millions.pop_front", &fore, &Some((n - 1, at(0))), d);
    cx.eq("pv.millions.split", &sides, &(cut, n - cut, Some(at(cut))), d);
    cx.eq("pv.millions.concat", &joined, &(n, Some(at(cut)), Some(if cut == 0 { at(n - 1) } else { at(cut - 1) })), d);
    cx.eq("pv.millions.insert", &ins, &Some(9), d);
    cx.case("millions", &(n, front), true, d);
}
/// beyond 2^21 elements: one more level of branches than the large histories have
fn huge(cx: &mut Ctx, r: &mut Rng) {
    use rustica::pvec::PersistentVector as PV;
    let n = 64 * 32 * 32 * 32 + *r.pick(&[0usize, 1, 63, 64, 65, 2048, 70_000]);
    let route = r.below(2);
    let d = || format!("huge n={n} route={route}");
    let m: Vec<u32> = (0..n as u32).collect();
    let Some(v) = cx.guard("pv.huge", d, || if route == 0 { m.iter().copied().collect::<PV<u32>>() } else { PV::from_slice(&m) }) else { return };
    let same = |cx: &mut Ctx, what: &str, v: &PV<u32>, m: &mut dyn ExactSizeIterator<Item = u32>| {
        let len = m.len();
        cx.eq(&format!("pv.huge.{what}.len"), &v.len(), &len, d);
        cx.check(&format!("pv.huge.{what}.iter"), v.iter().copied().eq(m), || format!("other elements: {}", d()));
    };
    same(cx, "build", &v, &mut m.iter().copied());
    let mut at: Vec<usize> = (0..200).map(|_| r.below(n)).collect();
    at.extend([0, 1, 63, 64, 2047, 2048, 65_535, 65_536, 2_097_151, n - 1, n - 64, n - 65]);
    for &i in &at {
        cx.eq("pv.huge.get", &v.get(i).copied(), &Some(i as u32), || format!("index {i}: {}", d()));
    }
    cx.eq("pv.huge.get", &v.get(n), &None, d);
    let (i, k, c) = (*r.pick(&at), 1 + r.below(200), *r.pick(&at));
    if let Some((u, b, f, x, y)) = cx.guard("pv.huge.ops", d, || {
        let u = v.update(i, 7_000_000);
        let mut b = v.clone();
        let mut f = v.clone();
        for j in 0..k as u32 {
            b = b.push_back(8_000_000 + j);
            f = f.push_front(9_000_000 + j);
        }
        let (x, y) = v.split_at(c);
        (u, b, f, x, y)
    }) {
        let e = |what: &str| format!("{what} i={i} k={k} c={c}: {}", d());
        cx.check("pv.huge.update", u.len() == n && u.iter().copied().eq((0..n).map(|j| if j == i { 7_000_000 } else { j as u32 })), || e("update"));
        cx.check("pv.huge.push_back", b.len() == n + k && b.iter().copied().eq((0..n as u32).chain((0..k as u32).map(|j| 8_000_000 + j))), || e("push_back"));
        cx.check("pv.huge.push_front", f.len() == n + k && f.iter().copied().eq((0..k as u32).rev().map(|j| 9_000_000 + j).chain(0..n as u32)), || e("push_front"));
        same(cx, "split.left", &x, &mut m[..c].iter().copied());
        same(cx, "split.right", &y, &mut m[c..].iter().copied());
        if let Some(z) = cx.guard("pv.huge.concat", d, || y.concat(&x)) {
            cx.check("pv.huge.concat", z.len() == n && z.iter().copied().eq((c as u32..n as u32).chain(0..c as u32)), || e("concat"));
            for &i in &at {
                let w = (i + c) % n;
                cx.eq("pv.huge.concat.get", &z.get(i).copied(), &Some(w as u32), || format!("index {i} after exchanging the parts at {c}: {}", d()));
            }
        }
        same(cx, "kept", &v, &mut m.iter().copied());
    }
    cx.max("max_version_len", (n + k) as u64);
    cx.case("huge", &(n, route, i, k, c), true, d);
}
/// Elements that compare by key only: sorting must be stable, de-duplication keeps the first of
/// a run, and every user function is called once per element, in order.
#[derive(Clone, Debug)]
struct K(u8, usize);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.0 == o.0
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
fn keyed(cx: &mut Ctx, r: &mut Rng) {
    use std::cell::RefCell;
    let n = size(r, 900);
    let keys = 1 + r.below(6);
    let runs = r.chance(1, 2);
    let mut k = 0u8;
    let m: Vec<K> = (0..n)
        .map(|i| {
            if !runs || r.chance(1, 3) {
                k = r.below(keys) as u8;
            }
            K(k, i)
        })
        .collect();
    let cut = r.below(n + 1);
    let route = r.below(3);
    let show = |v: &[K]| v.iter().map(|k| (k.0, k.1)).collect::<Vec<_>>();
    let h = || format!("keys {:?} route {route} cut {cut}", m.iter().map(|k| k.0).collect::<Vec<_>>());
    let size_ = 1 + r.below(9);
    let Some(()) = cx.guard("pv.keyed", h, || ()) else { return };
    let got = cx.guard("pv.keyed", h, || {
        type V<T> = rustica::pvec::PersistentVector<T>;
        let p: V<K> = match route {
            0 => V::from_slice(&m),
            1 => V::from_slice(&m[..cut]).concat(&V::from_slice(&m[cut..])),
            _ => m[..cut].iter().rev().fold(V::from_slice(&m[cut..]), |p, x| p.push_front(x.clone())),
        };
        let log = RefCell::new(vec![]);
        let note = |x: &K| log.borrow_mut().push(x.1);
        let mut out: Vec<(&str, Vec<(u8, usize)>, Vec<usize>)> = vec![];
        let mut put = |what, v: Vec<K>| out.push((what, show(&v), log.take()));
        put("sorted", p.sorted().to_vec());
        put("dedup", p.dedup().to_vec());
        put("map", p.map(|x| { note(x); K(x.0 + 1, x.1) }).to_vec());
        put("filter", p.filter(|x| { note(x); x.0 % 2 == 0 }).to_vec());
        put("filter_map", p.filter_map(|x| { note(x); (x.0 % 2 == 1).then(|| x.clone()) }).to_vec());
        put("flat_map", p.flat_map(|x| { note(x); vec![x.clone(); (x.0 % 3) as usize] }).to_vec());
        let (a, b) = p.partition(|x| { note(x); x.0 % 2 == 0 });
        put("partition", [a.to_vec(), b.to_vec()].concat());
        put("fold", p.fold(vec![], |mut v: Vec<K>, x| { note(x); v.push(x.clone()); v }));
        put("chunk", p.chunk(size_).iter().flat_map(|c| c.to_vec()).collect());
        out
    });
    let Some(got) = got else { return };
    let ids: Vec<usize> = (0..n).collect();
    let mut sorted = m.clone();
    sorted.sort();
    let mut dedup = m.clone();
    dedup.dedup();
    let even: Vec<K> = m.iter().filter(|x| x.0 % 2 == 0).cloned().collect();
    let odd: Vec<K> = m.iter().filter(|x| x.0 % 2 == 1).cloned().collect();
    let want: Vec<(&str, Vec<K>, bool)> = vec![
        ("sorted", sorted, false),
        ("dedup", dedup, false),
        ("map", m.iter().map(|x| K(x.0 + 1, x.1)).collect(), true),
        ("filter", even.clone(), true),
        ("filter_map", odd.clone(), true),
        ("flat_map", m.iter().flat_map(|x| vec![x.clone(); (x.0 % 3) as usize]).collect(), true),
        ("partition", [even, odd].concat(), true),
        ("fold", m.clone(), true),
        ("chunk", m.clone(), false),
    ];
    for ((w, gv, gl), (_, wv, calls)) in got.iter().zip(&want) {
        cx.eq("pv.keyed", gv, &show(wv), || format!("{w} of {}", h()));
        if *calls {
            cx.eq("pv.calls", gl, &ids, || format!("function calls of {w} of {}", h()));
        }
    }
    cx.case("keyed", &(hash_of(&show(&m)), route, cut), n > 1, h);
}
