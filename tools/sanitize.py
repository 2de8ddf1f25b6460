#!/usr/bin/env python3
"""C27: runs the program set natively (drop counts, allocation balance) and under ASan, Miri and TSan.
Only a report of the instrumentation itself counts; what the borrowed workers say about their own
properties is ignored here. exit 0 held / 1 violation / 2 no answer."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
T0 = time.time()
TIER = sys.argv[1] if len(sys.argv) > 1 else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
TRIPLE = "x86_64-unknown-linux-gnu"
base = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
            MON_VERIF=V, VERIF_SEED=str(SEED), VERIF_TIER=TIER)
nightly = dict(base, RUSTUP_TOOLCHAIN="nightly", CARGO_PROFILE_RELEASE_DEBUG="1")
ASAN_WORKERS = ["c01", "c02", "c04", "c09", "c14", "c20", "c22", "c23", "c24"]
TSAN_WORKERS = ["c02", "c22", "c23", "c24"]
viol, notes, cnt, samples = [], [], {}, []
REPORT = re.compile(r"(ERROR: AddressSanitizer: (?!stack-overflow|allocator|out-of-memory|requested-allocation)[^\n]*|WARNING: ThreadSanitizer: (?:data race|heap-use-after-free|use-after-free)[^\n]*|"
                    r"error: Undefined Behavior[^\n]*|unsafe precondition\(s\) violated[^\n]*|UBDRIVER \w+ seed[^\n]*values alive[^\n]*|double free[^\n]*|free\(\): invalid[^\n]*|malloc\(\): [^\n]*corrupt[^\n]*)")

def left(limit):
    return limit - (time.time() - T0)

def sh(cmd, env, timeout):
    t = time.time()
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(5, timeout), text=True, errors="replace")
        return p.returncode, p.stdout, time.time() - t
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return "timeout", o.decode(errors="replace") if isinstance(o, bytes) else o, time.time() - t

def cargo(env, args, log):
    rc, out, dt = sh(["cargo"] + args, env, 600)
    open(f"target/build-{log}.log", "w").write(out)
    if rc != 0:
        notes.append(f"{log}: build failed, not run ({out.strip().splitlines()[-1][:160] if out.strip() else rc})")
    return rc == 0

def add(k, n=1):
    cnt[k] = cnt.get(k, 0) + n

def judge(tool, what, rc, out, cmd, env_show):
    add(f"{tool}.runs")
    m = re.search(r"UBDRIVER done programs=(\d+) user_code_points=(\d+) values=(\d+)", out)
    if m:
        add(f"{tool}.programs", int(m[1])); add(f"{tool}.user_code_points", int(m[2]))
        if len(samples) < 40: samples.append(f"{tool} {what}: {m[1]} programs, {m[2]} points of user code, no report")
    m = re.search(r"evaluations=(\d+) .*?oracle_checks=(\d+)", out)
    if m:
        add(f"{tool}.borrowed_evaluations", int(m[1]))
    r = REPORT.search(out)
    driver = "ub" in cmd
    died = driver and isinstance(rc, int) and rc in (-4, -6, -7, -8, -11, 132, 134, 135, 136, 139) and "overflowed its stack" not in out
    if r or died:
        i = r.start() if r else max(0, len(out) - 3000)
        viol.append({"signature": f"{tool}:{what}", "report": (r.group(0) if r else f"process died with {rc}"),
                     "detail": out[i:i + 6000], "rerun": f"{env_show} {' '.join(cmd)}"})
    elif rc == "timeout":
        add(f"{tool}.cut_short")
    elif driver and rc != 0:
        notes.append(f"{tool} {what}: no answer, status {rc}: {out.strip().splitlines()[-1][:200] if out.strip() else ''}")

ASAN_RF = "-Zsanitizer=address -Cdebug-assertions=on -Coverflow-checks=off"
def build_asan():
    bins = [x for b in ["c27"] + ASAN_WORKERS for x in ("--bin", b)]
    return cargo(dict(nightly, RUSTFLAGS=ASAN_RF), ["build", "--release", "--offline", "--manifest-path", "mon/Cargo.toml", "--target", TRIPLE, "--target-dir", "target/asan"] + bins, "asan")
def build_tsan():
    bins = [x for b in ["c27"] + TSAN_WORKERS for x in ("--bin", b)]
    return cargo(dict(nightly, RUSTFLAGS="-Zsanitizer=thread"), ["build", "-Zbuild-std", "--release", "--offline", "--manifest-path", "mon/Cargo.toml", "--target", TRIPLE, "--target-dir", "target/tsan"] + bins, "tsan")
MIRI_SYS = V + "/target/xdg/miri"
def miri_env(seed=0):
    # tree borrows: the more permissive aliasing model, so that only uncontested UB is reported
    return dict(nightly, MIRI_SYSROOT=MIRI_SYS, MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-seed={seed}")
MIRI_RUN = ["cargo", "miri", "run", "--release", "--offline", "--manifest-path", "mon/Cargo.toml", "--target-dir", "target/miri", "--bin", "c27", "--"]
def build_miri():
    if not os.path.isdir(MIRI_SYS + "/lib"):
        if not cargo(dict(nightly, XDG_CACHE_HOME=V + "/target/xdg"), ["miri", "setup", "--offline"], "miri-setup"):
            return False
    rc, out, _ = sh(MIRI_RUN + ["ub", "0", "1"], miri_env(), 600)
    open("target/build-miri.log", "w").write(out)
    if "UBDRIVER done" not in out:
        r = REPORT.search(out)
        notes.append("miri: could not start: " + (out.strip().splitlines()[-1][:160] if out.strip() else str(rc)))
        return False
    return True

def phase_asan(limit):
    if not build_asan(): return
    d = f"target/asan/{TRIPLE}/release/"
    e = dict(base, ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1", MON_HANG_MS="600000")
    jobs = []
    n = 3000 if THOROUGH else 250
    for i in range(40 if THOROUGH else 8):
        jobs.append(("driver", [d + "c27", "ub", str(n), str(SEED * 1000 + i), "-", "3"], e))
    scale = "1.0" if THOROUGH else "0.08"
    for w in ASAN_WORKERS:
        jobs.append((w, [d + w], dict(e, MON_SCALE=scale, MON_EVIDENCE="/dev/null", MON_VERIF=V + "/target/scratch", MON_LIMIT_S="60")))
    run(jobs, "asan", 8, limit, "ASAN_OPTIONS=detect_leaks=0:exitcode=99")
def phase_tsan(limit):
    if not build_tsan(): return
    d = f"target/tsan/{TRIPLE}/release/"
    e = dict(base, TSAN_OPTIONS="exitcode=99:report_thread_leaks=0:report_signal_unsafe=0:report_destroy_locked=0", MON_HANG_MS="600000")
    jobs = []
    n = 6000 if THOROUGH else 600
    for i in range(24 if THOROUGH else 4):
        jobs.append(("driver", [d + "c27", "ub", str(n), str(SEED * 1000 + i), "threads,io,async,memo,pvec,reader,state", "1"], e))
    scale = "1.0" if THOROUGH else "0.1"
    for w in TSAN_WORKERS:
        jobs.append((w, [d + w], dict(e, MON_SCALE=scale, MON_EVIDENCE="/dev/null", MON_VERIF=V + "/target/scratch", MON_LIMIT_S="60")))
    run(jobs, "tsan", 3, limit, "TSAN_OPTIONS=exitcode=99")
def phase_miri(limit):
    if not build_miri(): return
    jobs = []
    for i in range(120 if THOROUGH else 7):
        jobs.append((f"driver schedule {SEED * 100 + i}", MIRI_RUN + ["ub", "3", str(SEED * 1000 + i), "-", "1"], miri_env(SEED * 100 + i)))
    for i in range(80 if THOROUGH else 7):
        jobs.append((f"threads schedule {SEED * 100 + i}", MIRI_RUN + ["ub", "3", str(SEED * 1000 + i), "threads,memo,io", "0"], miri_env(SEED * 100 + 50 + i)))
    run(jobs, "miri", 7, limit, "MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows'")
def run(jobs, tool, par, limit, show):
    os.makedirs("target/scratch", exist_ok=True)
    def one(j):
        what, cmd, env = j
        if left(limit) < 10 or viol: return
        rc, out, dt = sh(cmd, env, left(limit))
        judge(tool, what, rc, out, cmd, show)
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, jobs))
if len(sys.argv) > 1 and sys.argv[1] == "build":
    print("asan", build_asan(), "miri", build_miri(), "tsan", build_tsan(), *notes)
    sys.exit(0)

# native worker
rc, out, _ = sh(["cargo", "build", "--release", "--offline", "--manifest-path", "mon/Cargo.toml", "--target-dir", "target", "--bin", "c27"], dict(base, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu"), 600)
if rc != 0:
    print(out[-4000:]); print("ERROR build of c27 failed"); sys.exit(2)
try: os.remove("evidence/C27.json")
except OSError: pass
native_rc, out, _ = sh(["target/release/c27"], dict(base, **({"MON_LIMIT_S": "300"} if THOROUGH else {})), 400)
print(out[-3000:])
if native_rc in (-4, -6, -7, -8, -11):
    viol.append({"signature": "native:died", "report": f"worker died with {native_rc}", "detail": out[-3000:], "rerun": f"cd /verif && VERIF_SEED={SEED} bash run.sh C27 {TIER}"})
if native_rc in (0, 2):
    # the phases compete for the same cores; each has its own share of the time
    phase_miri(480 if THOROUGH else 330)
    if not viol: phase_asan(670 if THOROUGH else 500)
    if not viol: phase_tsan(840 if THOROUGH else 700)
try:
    ev = json.load(open("evidence/C27.json"))
except Exception:
    ev = {"property": "C27", "tier": TIER, "seed": SEED, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "native worker died", "samples": ["-"]}, "violations": len(viol)}
ev["coverage"].setdefault("counters", {}).update(cnt)
for k in ("asan.programs", "miri.programs", "tsan.programs"):
    ev["coverage"]["evaluations"] += cnt.get(k, 0)
ev["coverage"]["samples"] = (ev["coverage"].get("samples") or []) + samples
ev["coverage"]["sanitizer_notes"] = notes
ev["violations"] = ev.get("violations", 0) + len(viol)
ev["wall_s"] = time.time() - T0
json.dump(ev, open("evidence/C27.json", "w"), indent=1)
for n in notes: print("NOTE", n)
print("C27 sanitizers:", " ".join(f"{k}={v}" for k, v in sorted(cnt.items())), f"wall={time.time() - T0:.0f}s")
if viol:
    os.makedirs("replay", exist_ok=True)
    p = f"{V}/replay/C27-sanitizer-seed{SEED}.json"
    json.dump({"property": "C27", "seed": SEED, "tier": TIER, "violations": viol}, open(p, "w"), indent=1)
    for v in viol[:3]: print("report:", v["signature"], v["report"])
    print(f"VIOLATION property=C27 replay={p}"); sys.exit(1)
if native_rc == 1: sys.exit(1)
if native_rc != 0 or not any(cnt.get(k) for k in ("asan.programs", "miri.programs")):
    print("ERROR no answer"); sys.exit(2)
sys.exit(0)
