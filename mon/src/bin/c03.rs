use mon::pv::*;
use mon::*;
use rustica::pvec::PersistentVector as PV;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
fn main() {
    main_with("C03", |cx| {
        cx.rule = "a case is a pair of vectors with their construction routes; eq/cmp/partial_cmp/hash are compared with the lists' answers. \
                   Non-trivial: the two vectors were built by different routes or differ in contents; distinct by (routes, contents)."
            .into();
        mon::shapes::rounds(cx);
        let n = cx.n(30000, 3_000_000);
        for i in 0..n {
            if !cx.go() {
                break;
            }
            let mut r = cx.rng.split();
            match i % 3 {
                0 => pair::<String>(cx, &mut r),
                _ => pair::<i64>(cx, &mut r),
            }
        }
        for _ in 0..cx.n(300, 20000) {
            if !cx.go() {
                break;
            }
            let mut r = cx.rng.split();
            pool_pairs(cx, &mut r);
        }
        for _ in 0..cx.n(2000, 100000) {
            if !cx.go() {
                break;
            }
            let mut r = cx.rng.split();
            floats(cx, &mut r);
        }
        cx.require("equal_pairs_different_routes", 1000);
        cx.require("unequal_pairs", 1000);
    });
}
/// Build exactly the contents m along a random route.
fn build<T: Elem>(r: &mut Rng, m: &[i64], depth: usize) -> (PV<T>, String) {
    let n = m.len();
    match r.below(if depth == 0 { 4 } else { 12 }) {
        0 => (PV::from_slice(&mkv::<T>(m)), "slice".into()),
        1 => {
            let mut p = PV::new();
            for x in m {
                p = p.push_back(T::mk(*x));
            }
            (p, "pushb".into())
        },
        2 => {
            let mut p = PV::new();
            for x in m.iter().rev() {
                p = p.push_front(T::mk(*x));
            }
            (p, "pushf".into())
        },
        3 => {
            let mut p = PV::new();
            p.extend(mkv::<T>(m));
            (p, "extend".into())
        },
        4 | 5 => {
            let k = r.below(n + 1);
            let (a, ra) = build::<T>(r, &m[..k], depth - 1);
            let (b, rb) = build::<T>(r, &m[k..], depth - 1);
            (a.concat(&b), format!("({ra}@{k}+{rb})"))
        },
        6 => {
            // cut out of something longer
            let pre = r.below(90);
            let post = r.below(90);
            let mut big = vec![9; pre];
            big.extend_from_slice(m);
            big.extend(vec![8; post]);
            let (b, rb) = build::<T>(r, &big, depth - 1);
            (b.skip(pre).take(n), format!("cut[{pre},{post}]({rb})"))
        },
        7 => {
            let k = 1 + r.below(80);
            let mut big = m.to_vec();
            big.extend(vec![5; k]);
            let (mut b, rb) = build::<T>(r, &big, depth - 1);
            for _ in 0..k {
                if let Some((nb, _)) = b.pop_back() {
                    b = nb
                }
            }
            (b, format!("popb{k}({rb})"))
        },
        8 => {
            let k = 1 + r.below(80);
            let mut big = vec![5; k];
            big.extend_from_slice(m);
            let (mut b, rb) = build::<T>(r, &big, depth - 1);
            for _ in 0..k {
                if let Some((nb, _)) = b.pop_front() {
                    b = nb
                }
            }
            (b, format!("popf{k}({rb})"))
        },
        9 if n > 0 => {
            let i = r.below(n);
            let mut o = m.to_vec();
            o[i] ^= 1;
            let (b, rb) = build::<T>(r, &o, depth - 1);
            (b.update(i, T::mk(m[i])), format!("upd{i}({rb})"))
        },
        10 if n > 0 => {
            let i = r.below(n);
            let mut o = m.to_vec();
            o.remove(i);
            let (b, rb) = build::<T>(r, &o, depth - 1);
            (b.insert(i, T::mk(m[i])), format!("ins{i}({rb})"))
        },
        11 => {
            let i = r.below(n + 1);
            let mut o = m.to_vec();
            o.insert(i, 3);
            let (b, rb) = build::<T>(r, &o, depth - 1);
            (b.remove(i).unwrap_or_default(), format!("rem{i}({rb})"))
        },
        _ => (mkv::<T>(m).into_iter().collect(), "iter".into()),
    }
}
fn contents(r: &mut Rng) -> Vec<i64> {
    let n = match r.below(3) {
        0 => r.below(6),
        1 => 60 + r.below(12),
        _ if r.chance(1, 60) => size(r, 5000),
        _ => size(r, 400),
    };
    (0..n).map(|_| r.range(0, 2)).collect()
}
fn compare<T: Elem>(cx: &mut Ctx, a: &PV<T>, ma: &[i64], b: &PV<T>, mb: &[i64], h: &str) {
    let Some((eq, ne, pc, c, lt, ge, he)) = cx.guard("cmp", || h.to_string(), || {
        (a == b, a != b, a.partial_cmp(b), a.cmp(b), a < b, a >= b, hash_of(a) == hash_of(b) && mon::word_hash_of(a) == mon::word_hash_of(b))
    }) else {
        return;
    };
    let w = ma.cmp(mb);
    let want = (w == Ordering::Equal, w != Ordering::Equal, Some(w), w, w == Ordering::Less, w != Ordering::Less);
    cx.eq("cmp", &(eq, ne, pc, c, lt, ge), &want, || format!("(==,!=,partial_cmp,cmp,<,>=) of {h}"));
    if w == Ordering::Equal {
        cx.check("hash", he, || format!("equal contents, different hash: {h}"));
        let two = cx.guard("sets", || h.to_string(), || {
            let hs: HashSet<PV<T>> = [a.clone(), b.clone()].into_iter().collect();
            let bs: BTreeSet<PV<T>> = [a.clone(), b.clone()].into_iter().collect();
            (hs.len(), bs.len())
        });
        if let Some(t) = two {
            cx.eq("sets", &t, &(1, 1), || h.to_string());
        }
    }
}
fn pair<T: Elem>(cx: &mut Ctx, r: &mut Rng) {
    let ma = contents(r);
    let mut mb = ma.clone();
    match r.below(6) {
        0 | 1 | 2 => {},
        3 => {
            if !mb.is_empty() {
                let i = r.below(mb.len());
                mb[i] = r.range(0, 3);
            }
        },
        4 => {
            let k = r.below(mb.len() + 1);
            mb.truncate(k);
            if r.chance(1, 2) {
                mb.push(r.range(0, 3));
            }
        },
        _ => mb = contents(r),
    }
    let Some(((a, ra), (b, rb))) = cx.guard("build", || format!("{ma:?} / {mb:?}"), || (build::<T>(r, &ma, 3), build::<T>(r, &mb, 3))) else {
        return;
    };
    // histories that lost contents are C01's business; compare what the vectors hold
    let ca: Vec<i64> = a.iter().map(|x| x.val()).collect();
    let cb: Vec<i64> = b.iter().map(|x| x.val()).collect();
    let h = || format!("a={ra} {ca:?} b={rb} {cb:?}");
    let hs = h();
    compare(cx, &a, &ca, &b, &cb, &hs);
    if ca == cb && ra != rb {
        cx.count("equal_pairs_different_routes", 1);
    }
    if ca != cb {
        cx.count("unequal_pairs", 1);
    }
    cx.case("pair", &(&ra, &rb, &ca, &cb), ra != rb || ca != cb, h);
}
fn pool_pairs(cx: &mut Ctx, r: &mut Rng) {
    let mut p = Pool::<i64>::new();
    p.max_len = 300;
    p.small_values = true;
    for _ in 0..30 {
        p.step(cx, r, 14);
    }
    for i in 0..p.items.len() {
        for j in 0..p.items.len() {
            let (a, b) = (p.items[i].p.clone(), p.items[j].p.clone());
            let ca = a.to_vec();
            let cb = b.to_vec();
            let hs = format!("#{i} vs #{j}: {}", p.hist());
            compare(cx, &a, &ca, &b, &cb, &hs);
            let k = (hash_of(&p.log), i, j);
            cx.case("pool_pair", &k, i != j, || hs.chars().take(300).collect());
        }
    }
}
/// Elements that are only partially ordered, in versions that share structure with each other.
fn floats(cx: &mut Ctx, r: &mut Rng) {
    let n = match r.below(3) {
        0 => r.below(5),
        1 => 60 + r.below(12),
        _ if r.chance(1, 60) => size(r, 5000),
        _ => size(r, 300),
    };
    let special = r.chance(1, 2);
    let mut pick = |r: &mut Rng| {
        if special || r.chance(1, 40) { *r.pick(&[0.0, -0.0, 1.0, f64::NAN, f64::INFINITY]) } else { *r.pick(&[0.0, 1.0]) }
    };
    let ma: Vec<f64> = (0..n).map(|_| pick(r)).collect();
    let mut vs: Vec<(PV<f64>, Vec<f64>, String)> = vec![(PV::from_slice(&ma), ma.clone(), "slice".into())];
    let mut pb = PV::new();
    for x in &ma {
        pb = pb.push_back(*x);
    }
    vs.push((pb, ma.clone(), "pushb".into()));
    for _ in 0..3 {
        let (p, m, w) = r.pick(&vs).clone();
        let (mut p, mut m, mut w) = (p, m, w);
        match r.below(5) {
            0 => w.push_str(".clone"),
            1 if n > 0 => {
                let (i, x) = (r.below(m.len().max(1)), pick(r));
                p = p.update(i, x);
                if i < m.len() {
                    m[i] = x;
                }
                w.push_str(&format!(".update({i},{x})"));
            },
            2 => {
                let x = pick(r);
                p = p.push_back(x);
                m.push(x);
                w.push_str(&format!(".push_back({x})"));
            },
            3 => {
                if let Some((q, _)) = p.pop_back() {
                    p = q;
                    m.pop();
                }
                w.push_str(".pop_back");
            },
            _ => {
                let k = r.below(m.len() + 1);
                p = p.split_at(k).0.concat(&p.split_at(k).1);
                w.push_str(&format!(".split_concat({k})"));
            },
        }
        vs.push((p, m, w));
    }
    for (pa, a, wa) in &vs {
        for (pb, b, wb) in &vs {
            let h = || format!("{wa} vs {wb}: {a:?} vs {b:?}");
            let got = cx.guard("float", h, || (pa == pb, pa != pb, pa.partial_cmp(pb), pa < pb, pa >= pb));
            if let Some(got) = got {
                cx.eq("float", &got, &(a == b, a != b, a.partial_cmp(b), a < b, a >= b), h);
            }
            cx.case("float", &format!("{wa}{wb}{a:?}{b:?}"), true, h);
        }
    }
}
