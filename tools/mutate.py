#!/usr/bin/env python3
"""Self-test of the monitors by small source mutations, in scratch copies under /tmp/mut (never in /repo).
usage: mutate.py gen OUT.json | mutate.py run MUTANTS.json RESULTS.jsonl WORKERS [LIMIT_S]"""
import json, os, random, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
from threading import Lock
R = "/repo/src"
MAP = [
 ("datatypes/choice.rs", "c14 c05 c06 c07 c08 c09 c10 c11 c15 c30"), ("datatypes/either.rs", "c05 c06 c07 c08 c11 c15 c29 c09 c30"),
 ("datatypes/maybe.rs", "c05 c06 c07 c08 c11 c15 c28 c09"), ("datatypes/validated", "c13 c05 c06 c07 c08 c09 c10 c11 c15 c29"),
 ("datatypes/id.rs", "c15 c05 c06 c07 c08 c09 c10 c29"), ("datatypes/writer.rs", "c19 c05 c06 c07 c08 c29"),
 ("datatypes/reader.rs", "c18 c08"), ("transformers/reader_t.rs", "c18 c08 c28 c16 c27"), ("datatypes/state.rs", "c17 c08"), ("transformers/state_t.rs", "c17 c08 c28 c16"),
 ("datatypes/cont.rs", "c20"), ("transformers/cont_t.rs", "c20"), ("datatypes/io.rs", "c21 c22"), ("datatypes/async_monad.rs", "c23"),
 ("datatypes/lens.rs", "c25"), ("datatypes/prism.rs", "c25"), ("datatypes/iso", "c25 c15"), ("wrapper/memoizer", "c24"), ("wrapper/predicate", "c26"),
 ("wrapper/thunk", "c29 c05"), ("wrapper/", "c09 c08 c05 c10 c15 c29 c03"), ("error/", "c16 c28 c15 c13 c12"), ("pvec/", "c01 c02 c03 c04 c10 c05 c09"),
 ("traits/", "c05 c06 c07 c08 c09 c10 c11 c12 c15 c26 c28 c29"), ("category/", "c26"), ("utils/", "c12 c26 c28 c15 c13"), ("transformers/", "c17 c18 c20"),
]
ALL = [f"c{i:02}" for i in range(1, 34)]
def bins(f):
    for k, v in MAP:
        if k in f: return v.split()
    return ALL
SUBS = [
 (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r"&&", "||"), (r"\|\|(?= )", "&&"),
 (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
 (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.skip\(([^()]+)\)", ""), (r"\.take\(([^()]+)\)", ""), (r"\.chain\([^()]*(\([^()]*\))*[^()]*\)", ""), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
 (r"\bself\b", "other"), (r"\bother\b", "self"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"fold_left", "fold_right"),
 (r"Left\(", "Right("), (r"Right\(", "Left("), (r"\bOk\(", "Err("), (r"\bErr\(", "Ok("), (r"Valid\(", "Invalid("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
 (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bif (?!let)([^{]+) \{", r"if !(\1) {"), (r"\bif (?!let)([^{]+) \{", r"if true {"), (r"\bif (?!let)([^{]+) \{", r"if false {"),
 (r"\((\w+), (\w+)\)", r"(\2, \1)"), (r"\((\w+)\.clone\(\), (\w+)\.clone\(\)\)", r"(\2.clone(), \1.clone())"), (r"\(&(\w+), &(\w+)\)", r"(&\2, &\1)"), (r"(\w+)\.combine\(&?(\w+)\)", r"\2.combine(&\1)"),
 (r"\bSome\([^()]*\)", "None"), (r"\.or\(", ".and("), (r"\.or_else\(\|\| ([^()]*)\)", ""), (r"Greater", "Less"), (r"Less", "Greater"), (r"\bf\(", "g("), (r"\bg\(", "f("), (r"push_back", "push_front"), (r"push_front", "push_back"),
 (r"\.push\(", ".insert(0, "), (r"continue;", "break;"), (r"break;", "continue;"), (r"\breturn ([^;]+);", ";"), (r"\.fold\(", ".rfold("), (r"\.\.=", ".."), (r"saturating_sub\(1\)", "saturating_sub(0)"), (r"\.unwrap_or\(([^()]+)\)", ".unwrap_or_default()"),
 (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().rev()"), (r"\.with_context\((?:[^()]|\([^()]*\))*\)", ""), (r"\b([a-z]+_?)1\b", r"\g<1>2"), (r"\b([a-z]+_?)2\b", r"\g<1>1"),
 (r"\bfa\b", "fb"), (r"\bfb\b", "fa"), (r"\bma\b", "mb"), (r"\bmb\b", "ma"), (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\bself_(\w+)", r"other_\1"), (r"\bother_(\w+)", r"self_\1"),
 (r"\.dedup\(\)", ""), (r"\.sort\w*\([^()]*\);", ""), (r"\.filter\(", ".skip_while("), (r"skip_while", "filter"), (r"take_while", "filter"), (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"),
]
def code_lines(path):
    out = []
    for i, l in enumerate(open(path).read().split("\n")):
        if l.strip().startswith("#[cfg(test)]"): break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use") or s.startswith("where") or s.startswith("impl") or re.match(r"(pub(\([a-z]+\))? )?(const |unsafe )?(fn|struct|enum|trait|type|mod)\b", s): continue
        if re.match(r"(since|note) =", s) or "capacity(" in s.lower() or "generation" in s: continue
        if "assert" in s or "Arbitrary" in s or "Gen" in s.split(): continue
        out.append((i, l))
    return out
ONLY = [x for x in os.environ.get('MUT_ONLY', '').split('@@') if x]
def gen(out):
    rnd = random.Random(7); ms = []
    for d, _, fs in os.walk(R):
        for f in fs:
            p = os.path.join(d, f); rel = os.path.relpath(p, R)
            if rel.startswith("prelude") or rel == "lib.rs" or not f.endswith(".rs"): continue
            mine = []
            for i, l in code_lines(p):
                body = l.split("//")[0]
                for a, b in SUBS:
                    ms_ = list(re.finditer(a, body))
                    for m in ms_[:3]:
                        new = body[:m.start()] + m.expand(b) + body[m.end():]
                        if new != body: mine.append({"file": rel, "line": i, "old": l, "new": new, "op": a})
                if re.match(r"\s*[\w.]+(\.\w+\(.*\))?;\s*$", body) or re.match(r"\s*\*?[\w.]+ [+\-]?= .*;\s*$", body):
                    mine.append({"file": rel, "line": i, "old": l, "new": re.match(r"\s*", body).group() + ";", "op": "delete"})
            cl = dict(code_lines(p))
            st = lambda l: l is not None and l.rstrip().endswith(";") and not re.match(r"\s*(return|break|continue|\}|\)|\.)", l)
            ind = lambda l: len(l) - len(l.lstrip())
            for i, l in cl.items():
                if st(l) and st(cl.get(i + 1)) and ind(l) == ind(cl[i + 1]):
                    mine.append({"file": rel, "line": i, "old": l + "\n" + cl[i + 1], "new": cl[i + 1] + "\n" + l, "op": "swap"})
            rnd.shuffle(mine); ms += mine
    rnd.shuffle(ms)
    ms = [m for m in ms if not ONLY or m['op'] in ONLY]
    # at most 2 mutants per line
    seen = {}; keep = []
    for m in ms:
        k = (m["file"], m["line"]); seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 2: keep.append(m)
    for i, m in enumerate(keep): m["id"] = i
    json.dump(keep, open(out, "w"), indent=0); print(len(keep))
    by = {}
    for m in keep: by[m["file"]] = by.get(m["file"], 0) + 1
    print(sorted(by.items(), key=lambda x: -x[1]))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
def sh(cmd, cwd, t, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace", start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, ""
def setup(w):
    d = f"/tmp/mut/w{w}"
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        sh(["cp", "-a", "/repo", d + "/repo"], "/", 600)
    sh(["git", "checkout", "--", "."], d + "/repo", 60)
    shutil.rmtree(d + "/mon", ignore_errors=True); sh(["cp", "-a", "/verif/mon", d + "/mon"], "/", 60)
    t = open(d + "/mon/Cargo.toml").read().replace('path = "/repo"', 'path = "../repo"').replace("debug = 1", "debug = 0")
    open(d + "/mon/Cargo.toml", "w").write(t)
    os.makedirs(d + "/v/evidence", exist_ok=True)
    if os.path.exists("/verif/known_findings.jsonl"): shutil.copy("/verif/known_findings.jsonl", d + "/v/")
    sh(["cargo", "build", "-q", "--release", "--offline", "--manifest-path", "mon/Cargo.toml", "--target-dir", "target", "--bins", "-j", "4"], d, 1800)
def checks(d, bs, scale, stop=True):
    args = [x for b in bs for x in ("--bin", b)]
    rc, out = sh(["cargo", "build", "-q", "--release", "--offline", "--manifest-path", "mon/Cargo.toml", "--target-dir", "target", "-j", "3"] + args, d, 600)
    if rc: return "nocompile", []
    killed = []
    for b in bs:
        rc, out = sh(["prlimit", "--as=9000000000", f"{d}/target/release/{b}"], d, 90, dict(ENV, MON_VERIF=d + "/v", MON_SCALE=str(scale), MON_HANG_MS="10000", VERIF_SEED="1"))
        if rc == 1 or rc not in (0, 1, 2): 
            killed.append(b if rc == 1 else f"{b}:{rc}")
            if stop: break
    return "ok", killed
def one(m, w):
    d = f"/tmp/mut/w{w}"; p = f"{d}/repo/src/{m['file']}"
    src = open(p).read(); ls = src.split("\n")
    n = m["old"].count("\n") + 1
    assert "\n".join(ls[m["line"]:m["line"] + n]) == m["old"], m
    ls[m["line"]:m["line"] + n] = [m["new"]]; open(p, "w").write("\n".join(ls))
    res = dict(m)
    try:
        rc, out = sh(["cargo", "check", "-q", "--offline", "--all-features", "--lib"], d + "/repo", 300)
        if rc: res["res"] = "nocompile"; return res
        st, k = checks(d, bins(m["file"]), os.environ.get("MSCALE", "0.15"))
        if st == "nocompile": res["res"] = "nocompile"; return res
        if k: res["res"] = "killed"; res["by"] = k; return res
        rc, out = sh(["cargo", "test", "--all-features", "--lib", "--tests", "--offline", "-q", "--", "--test-threads", "4", "--skip", "test_validated::performance_tests"], d + "/repo", 300)
        if rc: res["res"] = "tests_only"; res["tests"] = re.findall(r"^    (\S+)$", out, re.M)[:5]; return res
        rest = [b for b in ALL if b not in bins(m["file"]) and b != "c27"]
        st, k = checks(d, rest, 0.1)
        if k: res["res"] = "killed_elsewhere"; res["by"] = k; return res
        res["res"] = "SURVIVED"; return res
    finally:
        open(p, "w").write(src)
if sys.argv[1] == "gen": gen(sys.argv[2])
else:
    ms = json.load(open(sys.argv[2])); outp = sys.argv[3]; nw = int(sys.argv[4]); lim = float(sys.argv[5]) if len(sys.argv) > 5 else 3600
    flt = sys.argv[6] if len(sys.argv) > 6 else ""
    ms = [m for m in ms if flt in m["file"]]
    done = {json.loads(l)["id"] for l in open(outp)} if os.path.exists(outp) else set()
    t0 = time.time(); lock = Lock(); it = iter([m for m in ms if m["id"] not in done])
    def worker(w):
        setup(w)
        while time.time() - t0 < lim:
            with lock: m = next(it, None)
            if m is None: return
            try: r = one(m, w)
            except Exception as e: r = dict(m, res="error " + repr(e)[:200])
            with lock: open(outp, "a").write(json.dumps(r) + "\n")
    with ThreadPoolExecutor(nw) as ex: list(ex.map(worker, range(nw)))
