"""Shared machinery of the checks: extraction, verification with Verus, replay, evidence."""
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VX = os.path.join(VERIF, "work/vxtgt/debug/vx")
T0 = time.time()

def env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update({k: str(v) for k, v in kw.items()})
    return e

def sh(cmd, cwd=VERIF, timeout=600, **kw):
    """runs a command; returns (rc, stdout, stderr), rc None on timeout"""
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return None, "", "timeout"

class Broken(Exception):
    """the machinery itself (or the build of /repo) failed"""

def build_vx():
    rc, _, err = sh(["cargo", "build", "--offline", "-q"], cwd=VERIF + "/vx", CARGO_TARGET_DIR=WORK + "/vxtgt")
    if rc != 0:
        raise Broken("vx does not build: " + err[-2000:])

def expand(package, outdir, extra=(), cwd=REPO, cfg=()):
    """the crate's source after macro expansion, as the compiler sees it"""
    os.makedirs(outdir, exist_ok=True)
    cmd = ["cargo", "rustc", "--offline", "-q", "-p", package, "--lib", *extra, "--", "-Zunpretty=expanded", "-Awarnings"]
    rc, out, err = sh(cmd, cwd=cwd, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=WORK + "/exptgt")
    if rc != 0 or not out.strip():
        # cargo may consider the crate fresh and print nothing
        raise Broken(f"cannot expand {package}: {err[-2000:]}")
    p = os.path.join(outdir, package + ".rs")
    open(p, "w").write(out)
    return p

# ------------------------------------------------------------------------------------------- Verus
class Result:
    def __init__(self):
        self.fns = {}          # id -> "ok" | "fail" | "undecided"
        self.info = {}         # id -> map entry
        self.errors = []       # (id or None, message, rendered)
        self.structural = []   # reasons why the extraction does not apply
        self.notes = {}
        self.missing = []
        self.status = "ok"     # ok | failed | undecided
        self.reason = ""
        self.verified = 0; self.nerr = 0
        self.time = 0.0; self.smt_ms = 0; self.rlimit = 0
        self.cmd = ""
        self.text = ""
        self.lines = []
        self.breakdown = []
    def fn_at(self, line):
        best = None
        for f in self.info.values():
            if f["start"] <= line <= f["end"] and (best is None or f["start"] >= best["start"]):
                best = f
        return best

def run_vx(srcs, specs, out, mp, extra=()):
    cmd = [VX]
    for s, m in srcs:
        cmd += ["--src", s, "--as", m]
    for s in specs:
        cmd += ["--spec", s]
    cmd += ["--out", out, "--map", mp, *extra]
    return sh(cmd, timeout=120)

def verify(srcs, specs, wd, tag="g", extra=(), timeout=500, verus_args=()):
    """extracts the functions, attaches the contracts and lets Verus discharge the obligations"""
    os.makedirs(wd, exist_ok=True)
    r = Result()
    out, mp = f"{wd}/{tag}.rs", f"{wd}/{tag}.json"
    t = time.time()
    rc, so, se = run_vx(srcs, specs, out, mp, extra)
    if rc != 0:
        r.status, r.reason = "undecided", "extraction failed: " + (se or "timeout")[-1500:]
        return r
    m = json.load(open(mp))
    for f in m["functions"]:
        r.info[f["id"] if f["id"] not in r.info else f"{f['module']}::{f['id']}#{f['start']}"] = f
    r.structural = m["structural"]; r.notes = m["notes"]; r.missing = m["missing"]
    r.lines = open(out).read().split("\n")
    cmd = ["verus", out, "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "3", "--crate-name", "g", "--num-threads", "8", *verus_args]
    r.cmd = " ".join(cmd)
    rc, so, se = sh(cmd, cwd=wd, timeout=timeout)
    r.time = time.time() - t
    r.text = se
    if rc is None:
        r.status, r.reason = "undecided", "Verus did not finish in time"
        return r
    try:
        j = json.loads(so[so.index("{"):])
    except ValueError:
        j = {}
    vr = j.get("verification-results")
    diags = []
    for l in se.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    errs = [d for d in diags if d.get("level") == "error" and d.get("spans") is not None]
    if not vr or vr.get("encountered-vir-error") or (vr.get("encountered-error") and not vr.get("verified")):
        r.status = "undecided"
        r.reason = "Verus cannot process the extracted text: " + "; ".join(d["message"] for d in errs[:3])[:1000]
        r.errors = [(None, d["message"], d.get("rendered", "")) for d in errs]
        return r
    r.verified, r.nerr = vr.get("verified", 0), vr.get("errors", 0)
    smt = j["times-ms"]["smt"]
    r.smt_ms = smt["smt-run"]; r.rlimit = smt.get("rlimit-run", 0)
    for mod in smt["smt-run-module-times"]:
        for f in mod["function-breakdown"]:
            r.breakdown.append((f["function"], f["time"], f["success"]))
    for i in r.info:
        r.fns[i] = "trusted" if r.info[i]["external"] else "ok"
    for d in errs:
        if not d["spans"]:
            continue
        ids = []
        for s in sorted(d["spans"], key=lambda s: s["is_primary"]):
            f = r.fn_at(s["line_start"])
            if f:
                ids.append(f)
        # the failing body, rather than the contract that is not met
        f = next((f for f in ids if any(f["body"] <= s["line_start"] <= f["end"] for s in d["spans"])), ids[0] if ids else None)
        und = "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() or "not supported" in d["message"]
        inv = "invariant" in d["message"] or "decreases" in d["message"]
        if f:
            i = next(k for k, v in r.info.items() if v is f)
            if und or (inv and f["loops"]):
                if r.fns.get(i) != "fail": r.fns[i] = "undecided"
            else:
                r.fns[i] = "fail"
            r.errors.append((i, d["message"], d.get("rendered", "")))
        else:
            r.errors.append((None, d["message"], d.get("rendered", "")))
    if r.nerr or r.errors:
        r.status = "failed"
    return r

BITOPS = re.compile(r"<<|>>|\^| & (?!mut\b)(?=[0-9a-z(])")
def body_text(r, i):
    f = r.info[i]
    return "\n".join(r.lines[f["body"] - 1:f["end"]])
def conclusive(r, i):
    """a failed obligation of this function counts as a refutation (not as a limit of the proof)"""
    f = r.info.get(i)
    return bool(f) and r.fns.get(i) == "fail" and f["loops"] == 0 and not r.structural and not r.missing and not BITOPS.search(body_text(r, i))

# ------------------------------------------------------------------------------------------- replay
def build_replay(crate):
    rc, _, err = sh(["cargo", "build", "--offline", "-q"], cwd=f"{VERIF}/replay/{crate}", timeout=600, CARGO_TARGET_DIR=WORK + "/rptgt")
    if rc != 0:
        raise Broken(f"the replay crate {crate} does not build against /repo: " + err[-3000:])

def literals(paths, cap=60):
    """integer literals of the code under test: sizes and values worth trying"""
    c = {}
    for p in paths:
        try:
            t = open(p).read()
        except OSError:
            continue
        t = t.split("#[cfg(test)]")[0]
        for x in re.findall(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?=[^\w.]|u\d|i\d|usize|isize|\.\.)", t):
            try:
                v = int(x.replace("_", ""), 0)
            except ValueError:
                continue
            c[v] = c.get(v, 0) + 1
    return [str(k) for k in sorted(c) if k < 1 << 64][:cap]

def replay(crate, prop, rounds, lits, wd, timeout=400, tgt=WORK + "/rptgt"):
    out = f"{wd}/replay-{prop}.json"
    for f in (out, out + ".cur"):
        if os.path.exists(f):
            os.remove(f)
    cmd = [f"{tgt}/debug/vx_{crate}", prop, str(SEED), str(rounds), out, *lits]
    rc, so, se = sh(cmd, timeout=timeout)
    if os.path.exists(out):
        j = json.load(open(out))
        j["cmd"] = " ".join(cmd)
        return j
    if rc is not None and rc < 0:
        return {"failed": True, "property": prop, "case": open(out + ".cur").read()[:3000] if os.path.exists(out + ".cur") else f"the run with seed {SEED} ended by signal {-rc}", "expected": "no crash", "observed": f"signal {-rc}", "evaluations": 0, "cmd": " ".join(cmd)}
    raise Broken(f"replay {prop}: rc={rc} {se[-1500:]}")

# ------------------------------------------------------------------------------------------- reporting
def known():
    try:
        return open(VERIF + "/KNOWN-FINDINGS.txt").read().splitlines()
    except OSError:
        return []

def write_evidence(prop, level, coverage, assumptions, violations):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    e = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
         "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
    open(f"{VERIF}/evidence/{prop}.json", "w").write(json.dumps(e, indent=1))

def write_replay(prop, obj):
    d = VERIF + "/evidence/replays"
    os.makedirs(d, exist_ok=True)
    p = f"{d}/{prop}.json"
    open(p, "w").write(json.dumps(obj, indent=1))
    return os.path.relpath(p, VERIF)
