//! Monitoring runtime shared by all property workers.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub mod progs;
pub mod knots;
pub mod worn;
pub mod shapes;
pub mod track;
pub mod views;

// ------------------------------------------------------------------ RNG
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn small(&mut self) -> i64 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => self.range(-3, 3),
            _ => self.range(-100, 100),
        }
    }
    pub fn string(&mut self) -> String {
        let n = if self.chance(1, 40) { self.below(320) } else { self.below(5) };
        (0..n).map(|_| *self.pick(&['a', 'b', 'c', 'é', '"', '\n', 'Z', '0', ' ', '\t', '😀', '{'])).collect()
    }
    pub fn vec_small(&mut self, max: usize) -> Vec<i64> {
        let n = self.len_upto(max);
        (0..n).map(|_| self.small()).collect()
    }
    /// lengths biased to 0,1,2 and inline-buffer boundaries
    pub fn len_upto(&mut self, max: usize) -> usize {
        match self.below(6) {
            0 => 0.min(max),
            1 => 1.min(max),
            2 => 2.min(max),
            _ => self.below(max + 1),
        }
    }
    /// as `len_upto`, now and then far longer
    pub fn len_tail(&mut self, max: usize) -> usize {
        if self.chance(1, 24) {
            match self.below(3) {
                0 => *self.pick(&[15usize, 16, 17, 24, 25, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 255, 256, 257, 300]),
                _ => self.below(130),
            }
        } else {
            self.len_upto(max)
        }
    }
    pub fn vec_tail(&mut self, max: usize) -> Vec<i64> {
        let n = self.len_tail(max);
        (0..n).map(|_| self.small()).collect()
    }
    pub fn split(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

/// A family of deterministic "pure functions" i64 -> i64, addressable by code
/// so cases can be written out and replayed.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct Fun(pub u64);
impl Fun {
    pub fn gen_(r: &mut Rng) -> Fun {
        Fun(match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => r.u64() & 0xffff,
        })
    }
    pub fn ap(self, x: i64) -> i64 {
        match self.0 {
            0 => x,
            1 => 7,
            2 => -x,
            k => {
                let h = mix(k.wrapping_mul(31).wrapping_add(x as u64));
                (h % 201) as i64 - 100
            },
        }
    }
    /// non-commutative binary function
    pub fn ap2(self, x: i64, y: i64) -> i64 {
        self.ap(x.wrapping_mul(3).wrapping_sub(y.wrapping_mul(7)) % 1000)
    }
    pub fn ap3(self, x: i64, y: i64, z: i64) -> i64 {
        self.ap((x * 3 - y * 7 + z * 11) % 1000)
    }
    pub fn pred(self, x: i64) -> bool {
        match self.0 {
            0 => true,
            1 => false,
            2 => x >= 0,
            k => mix(k ^ (x as u64).wrapping_mul(77)) & 1 == 0,
        }
    }
    /// small arity selector for "returns several or no results"
    pub fn small(self, x: i64, n: u64) -> u64 {
        mix(self.0.wrapping_mul(1315423911) ^ (x as u64)) % n
    }
}
/// oracles written out, so that no library trait in scope can supply them by method resolution
pub fn in_order<T: PartialOrd>(xs: &[T]) -> bool {
    (1..xs.len()).all(|i| xs[i - 1] <= xs[i])
}
pub fn among<T: PartialEq>(xs: &[T], x: &T) -> bool {
    xs.iter().any(|y| y == x)
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A hasher that, like the word-at-a-time hashers in common use, depends on how its input was cut into
/// writes. Equal values must agree under it as well.
#[derive(Default)]
pub struct Words(u64);
impl std::hash::Hasher for Words {
    fn write(&mut self, b: &[u8]) {
        self.0 = (self.0.rotate_left(5) ^ 0x9e37_79b9 ^ b.len() as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
        for x in b {
            self.0 = (self.0.rotate_left(7) ^ *x as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub fn word_hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Words::default();
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

// ------------------------------------------------------------------ call log
/// Records the arguments user-supplied closures were called with.
#[derive(Clone)]
pub struct Log<T = i64>(pub Rc<RefCell<Vec<T>>>);
impl<T: Clone> Default for Log<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Log<T> {
    pub fn new() -> Self {
        Log(Rc::new(RefCell::new(vec![])))
    }
    pub fn add(&self, t: T) {
        self.0.borrow_mut().push(t)
    }
    pub fn take(&self) -> Vec<T> {
        std::mem::take(&mut *self.0.borrow_mut())
    }
    pub fn len(&self) -> usize {
        self.0.borrow().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
/// Thread-safe event log.
#[derive(Clone)]
pub struct SLog<T = i64>(pub std::sync::Arc<Mutex<Vec<T>>>);
impl<T: Clone> Default for SLog<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> SLog<T> {
    pub fn new() -> Self {
        SLog(std::sync::Arc::new(Mutex::new(vec![])))
    }
    pub fn add(&self, t: T) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).push(t)
    }
    pub fn take(&self) -> Vec<T> {
        std::mem::take(&mut *self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).len()
    }
    pub fn snapshot(&self) -> Vec<T> {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
}

// ------------------------------------------------------------------ panics
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(true) };
}
/// payload of deliberately injected panics
pub struct Injected(pub i64);
pub fn inject(n: i64) -> ! {
    std::panic::panic_any(Injected(n))
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if let Some(i) = info.payload().downcast_ref::<Injected>() {
            format!("injected({})", i.0)
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone())));
        if std::env::var_os("MON_TRACE").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}
#[derive(Debug, Clone, PartialEq)]
pub struct Panic {
    pub loc: String,
    pub msg: String,
    pub injected: Option<i64>,
}
/// Runs the closure, catching panics.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            let injected = p.downcast_ref::<Injected>().map(|i| i.0);
            Err(Panic { loc, msg, injected })
        },
    }
}

// ------------------------------------------------------------------ context
struct Viol {
    sig: String,
    detail: String,
    case: u64,
    count: u64,
}
pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    start: Instant,
    pub limit: Duration,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    viols: Vec<Viol>,
    known: Vec<(String, String)>, // (signature, text)
    known_hit: BTreeMap<String, u64>,
    errors: Vec<String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    case: u64,
    case_desc: String,
    required: Vec<(String, u64)>,
    slot: usize,
}

const SLOTS: usize = 33;
// per worker: ms since process start when the running library call began, 0 = idle
static WATCH: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static WATCH_DESC: [Mutex<String>; SLOTS] = [const { Mutex::new(String::new()) }; SLOTS];

fn verif_dir() -> String {
    std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into())
}

impl Ctx {
    fn new(id: &str) -> Ctx {
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut known = vec![];
        let p = format!("{}/known_findings.jsonl", verif_dir());
        if let Ok(s) = std::fs::read_to_string(&p) {
            for l in s.lines() {
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(l)
                    && v["property"] == id
                    && v["status"] == "open"
                {
                    known.push((
                        v["signature"].as_str().unwrap_or("").to_string(),
                        v["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
        let limit = std::env::var("MON_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough {
            840
        } else {
            35
        });
        Ctx {
            id: id.into(),
            seed,
            thorough,
            rng: Rng::new(seed.wrapping_mul(0x5851_F42D_4C95_7F2D) ^ hash_of(id)),
            start: Instant::now(),
            limit: Duration::from_secs(limit),
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            viols: vec![],
            known,
            known_hit: BTreeMap::new(),
            errors: vec![],
            rule: String::new(),
            assumptions: vec![],
            case: 0,
            case_desc: String::new(),
            required: vec![],
            slot: 0,
        }
    }
    /// number of iterations for the tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if let Ok(s) = std::env::var("MON_SCALE")
            && let Ok(f) = s.parse::<f64>()
        {
            return ((quick as f64) * f).max(1.0) as usize;
        }
        if self.thorough { thorough } else { quick }
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }
    /// true while budget remains and too many violations were not yet seen
    pub fn go(&self) -> bool {
        self.start.elapsed() < self.limit && self.viols.len() < 12
    }
    /// fraction of time limit used < f
    pub fn within(&self, f: f64) -> bool {
        self.start.elapsed().as_secs_f64() < self.limit.as_secs_f64() * f && self.viols.len() < 12
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn counter(&self, k: &str) -> u64 {
        self.counters.get(k).copied().unwrap_or(0)
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    /// The run is an error (not a pass) unless the counter reached n.
    pub fn require(&mut self, k: &str, n: u64) {
        self.required.push((k.to_string(), n));
    }
    pub fn harness_error(&mut self, s: impl Into<String>) {
        let s = s.into();
        eprintln!("harness error: {s}");
        if self.errors.len() < 50 {
            self.errors.push(s);
        }
    }
    /// Register a case; key identifies it for distinctness, nontrivial per the rule.
    pub fn case<K: Hash>(&mut self, kind: &str, key: &K, nontrivial: bool, desc: impl FnOnce() -> String) {
        self.evals += 1;
        self.case += 1;
        *self.counters.entry(format!("cases.{kind}")).or_default() += 1;
        if nontrivial && self.distinct.len() < 3_000_000 {
            let fresh = self.distinct.insert(hash_of(&(kind, hash_of(key))));
            let nth = self.counters[&format!("cases.{kind}")];
            if fresh && (self.samples.len() < 3 || (nth == 7 && self.samples.len() < 24)) {
                let mut d = desc();
                if d.len() > 400 {
                    let mut e = 400;
                    while !d.is_char_boundary(e) {
                        e -= 1;
                    }
                    d.truncate(e);
                }
                self.samples.push(format!("{kind}: {d}"));
            }
        }
    }
    pub fn violation(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let sig = sig.into();
        if let Some((s, _)) = self.known.iter().find(|(s, _)| *s == sig) {
            *self.known_hit.entry(s.clone()).or_default() += 1;
            return;
        }
        let case = self.case;
        if let Some(v) = self.viols.iter_mut().find(|v| v.sig == sig) {
            v.count += 1;
            return;
        }
        let detail = detail.into();
        eprintln!("violation {sig}: {}", detail.chars().take(1500).collect::<String>());
        self.viols.push(Viol { sig, detail, case, count: 1 });
    }
    pub fn check(&mut self, sig: &str, ok: bool, detail: impl FnOnce() -> String) {
        *self.counters.entry("oracle_checks".into()).or_default() += 1;
        if !ok {
            let d = detail();
            self.violation(sig, d);
        }
    }
    pub fn eq<A: PartialEq<B> + Debug, B: Debug>(&mut self, sig: &str, got: &A, want: &B, ctx: impl FnOnce() -> String) {
        *self.counters.entry("oracle_checks".into()).or_default() += 1;
        if got != want {
            let d = format!("{}\n  got:  {got:?}\n  want: {want:?}", ctx());
            self.violation(sig, d);
        }
    }
    /// Run library code expected not to panic. A panic located outside the harness is a violation.
    pub fn guard<R>(&mut self, sig: &str, ctx: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        self.watch_begin(sig);
        let r = quiet(f);
        self.watch_end();
        match r {
            Ok(r) => Some(r),
            Err(p) => {
                let d = format!("{}\n  panic: {} at {}", ctx(), p.msg, p.loc);
                if p.loc.contains("/verif/mon/") || p.loc.starts_with("src/") {
                    // a panic raised in monitor code: never evidence against the library
                    self.harness_error(format!("{sig}: {d}"));
                } else {
                    self.violation(format!("{sig}:panic"), d);
                }
                None
            },
        }
    }
    /// A panic that ended a whole worker: in the library it is a violation, in the monitor an error.
    fn stray_panic(&mut self, p: &Panic, worker: usize) {
        let d = format!("worker {worker} panicked outside a guarded call: {} at {}", p.msg, p.loc);
        if p.loc.contains("/verif/mon/") || p.loc.starts_with("src/") || p.injected.is_some() {
            self.harness_error(d);
        } else {
            self.violation("stray:panic", d);
        }
    }
    pub fn watch_begin(&self, sig: &str) {
        if let Ok(mut d) = WATCH_DESC[self.slot].lock() {
            d.clear();
            d.push_str(sig);
        }
        WATCH[self.slot].store(self.start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
    }
    pub fn watch_end(&self) {
        WATCH[self.slot].store(0, Ordering::Relaxed);
    }
    pub fn violations(&self) -> usize {
        self.viols.len()
    }
    /// Runs the same monitor on n threads with independent random streams and merges what they saw.
    pub fn par(&mut self, n: usize, f: impl Fn(&mut Ctx, usize) + Sync) {
        let mut kids: Vec<Ctx> = (0..n)
            .map(|i| {
                let mut c = Ctx::new(&self.id);
                c.rng = self.rng.split();
                c.start = self.start;
                c.limit = self.limit;
                c.slot = 1 + i % (SLOTS - 1);
                c.case = self.case;
                c
            })
            .collect();
        std::thread::scope(|s| {
            let f = &f;
            let hs: Vec<_> = kids
                .iter_mut()
                .enumerate()
                .map(|(i, c)| {
                    std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                        if let Err(p) = quiet(|| f(c, i)) {
                            c.stray_panic(&p, i);
                        }
                        c.watch_end();
                    })
                })
                .collect();
            for h in hs {
                match h {
                    Ok(h) => drop(h.join()),
                    Err(e) => eprintln!("spawn: {e}"),
                }
            }
        });
        for k in kids {
            self.merge(k);
        }
    }
    fn merge(&mut self, k: Ctx) {
        self.evals += k.evals;
        self.case += k.evals;
        self.distinct.extend(k.distinct);
        for s in k.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
        for (a, b) in k.counters {
            *self.counters.entry(a).or_default() += b;
        }
        for (a, b) in k.maxima {
            let e = self.maxima.entry(a).or_default();
            *e = (*e).max(b);
        }
        for v in k.viols {
            match self.viols.iter_mut().find(|x| x.sig == v.sig) {
                Some(x) => x.count += v.count,
                None => self.viols.push(v),
            }
        }
        for (a, b) in k.known_hit {
            *self.known_hit.entry(a).or_default() += b;
        }
        self.errors.extend(k.errors);
    }
    pub fn set_desc(&mut self, d: String) {
        self.case_desc = d;
    }

    fn finish(mut self) -> i32 {
        let known = self.known.clone();
        for (k, n) in self.required.clone() {
            let got = if k == "evaluations" { self.evals } else { self.counter(&k).max(self.maxima.get(&k).copied().unwrap_or(0)) };
            if got < n && self.viols.is_empty() {
                self.errors.push(format!("coverage requirement not met: {k} = {got} < {n}"));
            }
        }
        if self.evals == 0 && self.viols.is_empty() {
            self.errors.push("observed nothing".into());
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), self.evals.into());
        cov.insert("distinct_nontrivial".into(), (self.distinct.len() as u64).into());
        cov.insert("rule".into(), self.rule.clone().into());
        cov.insert("samples".into(), self.samples.clone().into());
        cov.insert("counters".into(), serde_json::to_value(&self.counters).unwrap_or_default());
        cov.insert("maxima".into(), serde_json::to_value(&self.maxima).unwrap_or_default());
        cov.insert("known_findings_hit".into(), serde_json::to_value(&self.known_hit).unwrap_or_default());
        let ev = serde_json::json!({
            "property": self.id, "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed, "level": "exploration", "coverage": cov,
            "assumptions": self.assumptions, "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.viols.len(),
        });
        let ep = evidence_path(&self.id);
        if let Err(e) = std::fs::write(&ep, serde_json::to_string_pretty(&ev).unwrap_or_default()) {
            self.errors.push(format!("cannot write {ep}: {e}"));
        }
        for (sig, what) in &known {
            let n = self.known_hit.get(sig).copied().unwrap_or(0);
            println!("KNOWN-FINDING: property={} {} [{} occurrences this run]", self.id, what, n);
        }
        println!(
            "{}: evaluations={} distinct={} oracle_checks={} violations={} errors={} wall={:.1}s",
            self.id,
            self.evals,
            self.distinct.len(),
            self.counter("oracle_checks"),
            self.viols.len(),
            self.errors.len(),
            self.start.elapsed().as_secs_f64()
        );
        if !self.viols.is_empty() {
            let path = write_replay(
                &self.id,
                self.seed,
                self.thorough,
                &self
                    .viols
                    .iter()
                    .map(|v| serde_json::json!({"signature": v.sig, "detail": v.detail, "case": v.case, "occurrences": v.count}))
                    .collect::<Vec<_>>(),
            );
            println!("VIOLATION property={} replay={}", self.id, path);
            return 1;
        }
        if !self.errors.is_empty() {
            for e in &self.errors {
                println!("ERROR {e}");
            }
            return 2;
        }
        0
    }
}
fn evidence_path(id: &str) -> String {
    std::env::var("MON_EVIDENCE").unwrap_or_else(|_| {
        let d = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&d);
        format!("{d}/{id}.json")
    })
}
fn write_replay(id: &str, seed: u64, thorough: bool, v: &[serde_json::Value]) -> String {
    let dir = format!("{}/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-seed{seed}.json");
    let tier = if thorough { "thorough" } else { "quick" };
    let js = serde_json::json!({"property": id, "seed": seed, "tier": tier,
        "rerun": format!("cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} bash run.sh {id} {tier}"),
        "violations": v});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&js).unwrap_or_default());
    path
}

/// Entry point of every worker.
pub fn main_with(id: &'static str, f: impl FnOnce(&mut Ctx) + Send + 'static) -> ! {
    install_hook();
    // watchdog: a single library call that does not return although the same workload takes
    // milliseconds on the reference tree is reported (non-termination / deadlock)
    let hang_ms: u64 = std::env::var("MON_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000);
    let t0 = Instant::now();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(200));
            for slot in 0..SLOTS {
            let w = WATCH[slot].load(Ordering::Relaxed);
            let now = t0.elapsed().as_millis() as u64 + 1;
            if w != 0 && now > w + hang_ms {
                let d = WATCH_DESC[slot].lock().map(|s| s.clone()).unwrap_or_default();
                let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                let th = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
                let p = write_replay(id, seed, th, &[serde_json::json!({"signature": format!("{d}:hang"),
                    "detail": format!("library call did not return within {hang_ms} ms")})]);
                let ev = serde_json::json!({"property": id, "tier": if th {"thorough"} else {"quick"}, "seed": seed,
                    "level":"exploration", "coverage": {"evaluations":1,"distinct_nontrivial":1,"rule":"run ended by the hang watchdog","samples":[d]},
                    "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
                let _ = std::fs::write(evidence_path(id), ev.to_string());
                println!("VIOLATION property={id} replay={p}");
                std::process::exit(1);
            }
            }
        }
    });
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut ctx = Ctx::new(id);
            let r = quiet(|| f(&mut ctx));
            if let Err(p) = r {
                ctx.stray_panic(&p, 0);
            }
            ctx.finish()
        })
        .expect("spawn");
    let code = h.join().unwrap_or(2);
    std::process::exit(code)
}
pub mod pv;

/// Consumes an iterator by a random mixture of the provided iterator methods and compares every
/// answer with the same calls on a slice iterator over `model`. `exact`: size hints must be exact
/// and an exhausted iterator must stay exhausted.
pub fn drill<I: Iterator>(r: &mut Rng, mut it: I, key: impl Fn(I::Item) -> i64, model: &[i64], exact: bool) -> Result<(), String> {
    let mut m = model.iter().copied();
    let mut did = String::new();
    macro_rules! same {
        ($what:expr, $a:expr, $b:expr) => {{
            did.push_str(&format!(" {}", $what));
            let (a, b) = ($a, $b);
            if a != b {
                return Err(format!("iterator: after{did}: {a:?} want {b:?} (length {})", model.len()));
            }
        }};
    }
    let far = model.len() + 3;
    for _ in 0..r.below(7) {
        let left = m.len();
        let (lo, hi) = it.size_hint();
        if exact {
            same!("size_hint", (lo, hi), (left, Some(left)));
        } else if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("iterator: after{did}: size_hint ({lo},{hi:?}) but {left} left"));
        }
        if left == 0 && !exact {
            return Ok(());
        }
        let k = if r.chance(1, 3) { r.below(far) } else { r.below(4) };
        match r.below(6) {
            0 | 1 => same!("next", it.next().map(&key), m.next()),
            2 | 3 if exact || k < left => same!(format!("nth({k})"), it.nth(k).map(&key), m.nth(k)),
            4 if exact || k < left => same!(
                format!("take({k})"),
                it.by_ref().take(k).map(&key).collect::<Vec<_>>(),
                m.by_ref().take(k).collect::<Vec<_>>()
            ),
            5 => {
                let t = if model.is_empty() { 0 } else { *r.pick(model) };
                same!(format!("find({t})"), it.by_ref().map(&key).find(|x| *x == t), m.find(|x| *x == t))
            },
            _ => {},
        }
    }
    let left = m.len();
    let k = if r.chance(1, 3) { r.below(far) } else { r.below(5) };
    match r.below(8) {
        0 => same!("count", it.count(), m.count()),
        1 => same!("last", it.last().map(&key), m.last()),
        2 => same!(
            "fold",
            it.fold(vec![], |mut v, x| {
                v.push(key(x));
                v
            }),
            m.collect::<Vec<_>>()
        ),
        3 => same!(
            format!("step_by({})", k + 1),
            it.step_by(k + 1).map(&key).collect::<Vec<_>>(),
            m.step_by(k + 1).collect::<Vec<_>>()
        ),
        4 => same!(format!("skip({k})"), it.skip(k).map(&key).collect::<Vec<_>>(), m.skip(k).collect::<Vec<_>>()),
        5 => {
            let s = it.skip(k);
            let (lo, hi) = s.size_hint();
            let w = left.saturating_sub(k);
            if lo > w || hi.is_some_and(|h| h < w) {
                return Err(format!("iterator: after{did} skip({k}): size_hint ({lo},{hi:?}) but {w} left"));
            }
            same!(format!("skip({k}).last"), s.last().map(&key), m.skip(k).last())
        },
        6 => same!(
            "chunks",
            {
                let mut it = it.map(&key).peekable();
                let mut v = vec![];
                while it.peek().is_some() {
                    v.push(it.by_ref().take(3).collect::<Vec<_>>());
                }
                v
            },
            m.collect::<Vec<_>>().chunks(3).map(|c| c.to_vec()).collect::<Vec<_>>()
        ),
        _ => same!("collect", it.map(&key).collect::<Vec<_>>(), m.collect::<Vec<_>>()),
    }
    Ok(())
}

/// An iterator over `v` with a truthful but unhelpful size hint: exact, unknown, a lower bound
/// that is too small, or an upper bound as large as possible (as `take_while` on a huge range has).
#[derive(Clone)]
pub struct Hinted<T> {
    it: std::vec::IntoIter<T>,
    mode: usize,
}
pub fn hinted<T>(r: &mut Rng, v: Vec<T>) -> Hinted<T> {
    Hinted { it: v.into_iter(), mode: r.below(7) }
}
/// the same, mode chosen by a number
pub fn hinted_as<T>(mode: u64, v: Vec<T>) -> Hinted<T> {
    Hinted { it: v.into_iter(), mode: (mode % 7) as usize }
}
/// a future that is not ready at its first `n` polls (it wakes itself each time), so that futures
/// started together finish in another order than they were started
pub struct Later(pub u64);
impl std::future::Future for Later {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 {
            return std::task::Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.mode {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            3 => (n / 2, None),
            4 => (n / 2, Some(usize::MAX)),
            5 => (0, Some(n)),
            _ => (n / 2, Some(n + 5)),
        }
    }
}
