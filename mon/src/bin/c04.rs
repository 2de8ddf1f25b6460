use mon::pv::*;
use mon::track::{self, Tr};
use mon::*;
use rustica::pvec::PersistentVector as PV;
fn main() {
    main_with("C04", |cx| {
        cx.rule = "conservation: a case is one random history over drop-counting elements whose versions are then dropped in random order (live count must return to the start, no element seen after its drop); \
                   fault: one operation with a panic injected at its k-th element clone, for every k; copying: one single-element operation on a large vector with its element clones counted. \
                   Non-trivial: element clones happened; distinct by history/operation+panic point/operation+size."
            .into();
        let base = track::live();
        for _ in 0..cx.n(2500, 200_000) {
            if !cx.within(0.5) {
                break;
            }
            let mut r = cx.rng.split();
            history(cx, &mut r, base);
        }
        for _ in 0..cx.n(60, 4000) {
            if !cx.within(0.75) {
                break;
            }
            let mut r = cx.rng.split();
            faults(cx, &mut r, base);
        }
        let sizes: &[usize] = if cx.thorough { &[2000, 5000, 20_000, 65_600, 131_100, 400_000] } else { &[2000, 20_000, 70_000] };
        for &n in sizes {
            for route in 0..6 {
                if !cx.go() {
                    break;
                }
                let mut r = cx.rng.split();
                copying(cx, &mut r, n, route);
            }
        }
        cx.require("panics_injected", 500);
        cx.require("copy_ops_measured", 200);
        cx.require("clones_observed", 10_000);
    });
}
fn settle(cx: &mut Ctx, what: &str, base: i64, d: &dyn Fn() -> String) {
    let l = track::live();
    cx.check(&format!("{what}.conservation"), l == base, || format!("{} elements alive after everything was dropped; {}", l - base, d()));
    cx.check(&format!("{what}.bad"), track::bad() == 0, || format!("element used or dropped after its drop; {}", d()));
}
fn history(cx: &mut Ctx, r: &mut Rng, base: i64) {
    let mut p = Pool::<Tr>::new();
    p.max_len = if r.chance(1, 4) { 2500 } else { 400 };
    let c0 = track::clones();
    let steps = 5 + r.below(25);
    for _ in 0..steps {
        p.step(cx, r, 6);
        if r.chance(1, 6) && !p.items.is_empty() {
            let i = r.below(p.items.len());
            p.items.swap_remove(i);
        }
        // partially consumed by-value iterators
        if r.chance(1, 6) && !p.items.is_empty() {
            let i = r.below(p.items.len());
            let v = p.items[i].p.clone();
            let k = r.below(v.len() + 1);
            let got: Vec<Tr> = v.into_iter().take(k).collect();
            cx.check("into_iter.values", got.iter().all(|x| x.ok()), || p.hist());
        }
    }
    cx.count("clones_observed", track::clones() - c0);
    // drop order is part of the case
    let mut items: Vec<_> = std::mem::take(&mut p.items);
    let mut order = vec![];
    while !items.is_empty() {
        let i = r.below(items.len());
        order.push(i);
        items.swap_remove(i);
    }
    settle(cx, "history", base, &|| p.hist());
    let d = p.log.join("; ");
    cx.case("history", &(&d, &order), track::clones() > c0, || d.clone());
}
type Op = (&'static str, Box<dyn Fn(&PV<Tr>, &PV<Tr>)>);
fn ops(i: usize) -> Vec<Op> {
    vec![
        ("push_back", Box::new(|p, _| drop(p.push_back(Tr::new(-1))))),
        ("push_front", Box::new(|p, _| drop(p.push_front(Tr::new(-1))))),
        ("pop_back", Box::new(|p, _| drop(p.pop_back()))),
        ("pop_front", Box::new(|p, _| drop(p.pop_front()))),
        ("update", Box::new(move |p, _| drop(p.update(i % p.len().max(1), Tr::new(-1))))),
        ("insert", Box::new(move |p, _| drop(p.insert(i % p.len().max(1), Tr::new(-1))))),
        ("remove", Box::new(move |p, _| drop(p.remove(i % p.len().max(1))))),
        ("split_at", Box::new(move |p, _| drop(p.split_at(i % p.len().max(1))))),
        ("take", Box::new(move |p, _| drop(p.take(i % p.len().max(1))))),
        ("skip", Box::new(move |p, _| drop(p.skip(i % p.len().max(1))))),
        ("concat", Box::new(|p, q| drop(p.concat(q)))),
        ("clone", Box::new(|p, _| drop(p.clone()))),
        ("filter", Box::new(|p, _| drop(p.filter(|x| x.v % 2 == 0)))),
        ("sorted", Box::new(|p, _| drop(p.sorted()))),
        ("to_vec", Box::new(|p, _| drop(p.to_vec()))),
        ("into_iter", Box::new(|p, _| drop(p.clone().into_iter().collect::<Vec<_>>()))),
        ("zip", Box::new(|p, q| drop(p.zip(q)))),
        ("chunk", Box::new(|p, _| drop(p.chunk(7)))),
        ("extend", Box::new(|p, q| {
            let mut x = p.clone();
            x.extend(q.iter().take(5).cloned());
        })),
        ("partition", Box::new(|p, _| drop(p.partition(|x| x.v % 3 == 0)))),
        ("dedup", Box::new(|p, _| drop(p.dedup()))),
    ]
}
fn faults(cx: &mut Ctx, r: &mut Rng, base: i64) {
    let mut p = Pool::<Tr>::new();
    p.max_len = 200;
    for _ in 0..6 {
        p.step(cx, r, 3);
    }
    if p.items.len() < 2 {
        return;
    }
    let (a, b) = (0, 1);
    let i = r.below(1000);
    for (name, op) in ops(i) {
        let before = track::live();
        let pa = p.items[a].p.clone();
        let pb = p.items[b].p.clone();
        let c0 = track::clones();
        let ok = cx.guard(&format!("pv.{name}"), || p.hist(), || op(&pa, &pb));
        if ok.is_none() {
            continue;
        }
        let n = track::clones() - c0;
        let points: Vec<u64> = if n <= 24 { (1..=n).collect() } else { (0..24).map(|_| 1 + r.u64() % n).collect() };
        for k in points {
            track::PANIC_AT.with(|c| c.set(k));
            let res = quiet(|| op(&pa, &pb));
            track::PANIC_AT.with(|c| c.set(0));
            match res {
                Err(pn) if pn.injected == Some(77) => cx.count("panics_injected", 1),
                Err(pn) => cx.violation(format!("fault.{name}"), format!("other panic {pn:?}; {}", p.hist())),
                Ok(()) => cx.count("panic_not_reached", 1),
            }
            let d = format!("{name} with panic at clone {k}; {}", p.hist());
            cx.case("fault", &(name, k, hash_of(&p.log)), true, || d.chars().take(200).collect());
        }
        p.judge(cx, &format!("fault.{name}.contents"), &p.items[a].p, &p.items[a].m);
        p.judge(cx, &format!("fault.{name}.contents"), &p.items[b].p, &p.items[b].m);
        drop((pa, pb));
        cx.check(&format!("fault.{name}.leak"), track::live() == before, || {
            format!("{} extra elements alive after {name} panicked; {}", track::live() - before, p.hist())
        });
    }
    p.items.clear();
    settle(cx, "fault", base, &|| p.hist());
}
/// Bound on element copies of one structural operation: a constant number of 64-element buffers.
const BOUND: u64 = 24 * 64;
fn copying(cx: &mut Ctx, r: &mut Rng, n: usize, route: usize) {
    let v: Vec<Tr> = (0..n as i64).map(Tr::new).collect();
    let built = cx.guard("copy.build", || format!("n={n} route={route}"), || match route {
        0 => PV::from_slice(&v),
        1 => {
            let mut p = PV::new();
            for x in &v {
                p = p.push_back(x.clone());
            }
            p
        },
        2 => {
            let mut p = PV::new();
            for x in v.iter().rev() {
                p = p.push_front(x.clone());
            }
            p
        },
        3 => {
            let mut p = PV::new();
            for c in v.chunks(777) {
                p = p.concat(&PV::from_slice(c));
            }
            p
        },
        4 => PV::from_slice(&v).skip(n / 3).concat(&PV::from_slice(&v).take(n / 3)),
        _ => {
            // shaped by many insertions, removals and rotations
            let mut p = PV::from_slice(&v);
            for k in 0..1500 {
                p = match (k / 100) % 3 {
                    0 => p.insert(r.below(p.len()), Tr::new(3)),
                    1 => p.remove(r.below(p.len())).unwrap_or_default(),
                    _ => {
                        let (a, b) = p.split_at(r.below(p.len()));
                        b.concat(&a)
                    },
                };
            }
            p
        },
    });
    drop(v);
    let Some(p) = built else { return };
    let q = PV::from_slice(&(0..1000).map(Tr::new).collect::<Vec<_>>());
    for _ in 0..4 {
        let i = r.below(n.min(p.len()));
        for (name, op) in ops(i).into_iter().take(12) {
            let c0 = track::clones();
            if cx.guard(&format!("pv.{name}"), || format!("n={n} route={route}"), || op(&p, &q)).is_none() {
                continue;
            }
            let c = track::clones() - c0;
            cx.max(&format!("max_clones.{name}"), c);
            cx.count("copy_ops_measured", 1);
            let d = format!("{name} at {i} on length {n} (route {route}) copied {c} elements");
            cx.check(&format!("copy.{name}"), c <= BOUND, || format!("{d}, more than {BOUND}"));
            cx.case("copying", &(name, n, route, i), true, || d);
        }
        // also after the vector has been shaped by pops and pushes
    }
    // walks: n single steps stay bounded each
    let mut w = p.clone();
    for k in 0..400 {
        let c0 = track::clones();
        let res = cx.guard("copy.walk", || format!("n={n} route={route} step {k}"), || match r.below(if k < 200 { 4 } else { 10 }) {
            4 => w.insert(r.below(w.len()), Tr::new(2)),
            5 => w.remove(r.below(w.len())).unwrap_or_default(),
            6 => w.update(r.below(w.len()), Tr::new(2)),
            7 => {
                let (a, b) = w.split_at(r.below(w.len()));
                b.concat(&a)
            },
            8 => w.insert(1, Tr::new(2)),
            9 => w.insert(w.len() - 1, Tr::new(2)),
            0 => w.push_back(Tr::new(1)),
            1 => w.push_front(Tr::new(1)),
            2 => w.pop_back().map(|x| x.0).unwrap_or_default(),
            _ => w.pop_front().map(|x| x.0).unwrap_or_default(),
        });
        let Some(nw) = res else { return };
        w = nw;
        let c = track::clones() - c0;
        cx.max("max_clones.walk", c);
        cx.check("copy.walk", c <= BOUND, || format!("step {k} on length ~{n} copied {c}"));
    }
}
