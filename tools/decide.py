"""Turns the verifier's answer and the replay into the verdict of one property."""
import re, sys
from vlib import *

def trusted(r):
    """functions whose contract is assumed"""
    out = []; seen = set()
    ls = r.lines
    for k, l in enumerate(ls):
        if "external_body" in l:
            t = l + " " + " ".join(ls[k + 1:k + 3])
            m = re.search(r"\bfn (\w+)", t.split("external_body", 1)[1]) or re.search(r"struct (\w+)", t)
            if m and m.group(1) not in seen:
                seen.add(m.group(1)); out.append(m.group(1))
    return out

def violation(prop, obj, suffix="", level="other", cov=None):
    """a violation found before any proof was attempted"""
    write_evidence(prop, level, cov or {"explanation": obj.get("kind", ""), "evaluations": 1, "distinct_nontrivial": 1, "rule": "build of the programs under test", "samples": [str(obj.get("case"))[:200]]}, [], 1)
    obj["property"] = prop
    p = write_replay(prop, obj)
    print(str(obj.get("observed", ""))[-1500:])
    print(f"VIOLATION property={prop} replay={p}{suffix}")
    sys.exit(1)

def match(pats, i):
    return any(re.search(p, i) for p in pats)

def decide(prop, run, core, support, lemmas, rp, source, rule, level="proof", extra_cov=None, extra_assume=()):
    r = run("g", ())
    runs = [r]
    ids = lambda r: [i for i in r.fns if match(core, i) or match(support, i)]
    def canary_ok(r):
        c = [b for b in r.breakdown if "vx_canary" in b[0]]
        return bool(c) and not any(b[2] for b in c)
    def broken(r):
        return r.status == "undecided" or any(r.fns[i] in ("fail", "undecided") for i in ids(r)) or r.missing
    if broken(r) and time.time() - T0 < 330:
        # the helpers' own contracts may not fit the changed code: verify their bodies inside the callers instead
        r2 = run("h", ("--drop-helpers",))
        runs.append(r2)
        if r2.status != "undecided":
            if r.status == "undecided" or not [i for i in ids(r2) if r2.fns[i] in ("fail", "undecided")]:
                r = r2
            else:
                # what is refuted with and without the helpers' contracts
                for i in list(r.fns):
                    if r.fns[i] == "fail" and match(core, i) and r2.fns.get(i, "ok") == "ok" and not r.info[i]["helper"]:
                        r.fns[i] = "ok"
                    elif r.fns[i] == "fail" and r.info[i]["helper"] and not any(v != "ok" and v != "trusted" for k, v in r2.fns.items() if match(core, k) or match(support, k)):
                        r.fns[i] = "ok"
    fn = ids(r)
    lem = [b for b in r.breakdown if match(lemmas, b[0]) and "vx_canary" not in b[0]]
    # every proof of the shared specification library has to hold as well: the contracts rest on it
    lib = [b[0] for b in r.breakdown if re.match(r"^g::(vx|vxs|vxstd|serde|wire|nom|lit|names|naming|gen|spec_\w+)::", b[0]) and not b[2] and "vx_canary" not in b[0] and "::canary_" not in b[0]]
    bad_lem = sorted({b[0] for b in lem if not b[2]} | set(lib))
    failed = [i for i in fn if r.fns[i] == "fail"]
    und = [i for i in fn if r.fns[i] == "undecided"]
    ok = [i for i in fn if r.fns[i] == "ok"]
    mycore = [i for i in failed if match(core, i)]
    canary = r.status == "undecided" or canary_ok(r)
    discharged = len(ok) + len(lem) - len(bad_lem) if r.status != "undecided" and canary else 0
    nob = len([i for i in fn if r.fns[i] != "trusted"]) + len(lem)
    if r.status == "undecided": nob = max(nob, 1)
    errs = [{"function": i, "message": m, "report": t} for i, m, t in r.errors if i in failed or i in und or i is None][:12]
    notproved = []
    if r.status == "undecided":
        notproved.append(r.reason)
    if not canary:
        notproved.append("the consistency probes were not refuted as expected: nothing is counted as proved")
    notproved += [f"{i}: obligation not discharged" for i in failed + und] + bad_lem
    proved = discharged == nob and nob > 0 and not notproved
    cov = {"obligations": nob, "discharged": discharged, "checker_cmd": r.cmd, "backend": "Verus 0.2026.09.13 with Z3",
           "functions_under_contract": ok + failed + und, "solver_ms": sum(x.smt_ms for x in runs), "functions_verified_in_run": r.verified,
           "source": source, "extraction_drops": r.notes, "extraction_limits": r.structural,
           "trusted_base": ["rustc macro expansion and the vx extraction (see DESIGN.md)", "Verus, vstd, Z3"] + [f"assumed contract: {t}" for t in trusted(r)],
           "not_proved": notproved,
           "bounded_replay": {"label": "bounded", "evaluations": rp.get("evaluations", 0), "distinct": rp.get("distinct", 0), "rule": rule, "samples": rp.get("samples", [])[:6]}}
    cov.update(extra_cov or {})
    assume = ["machine integers are bounded (Verus checks overflow); f32/f64 are known only through their bit patterns",
              "allocation succeeds; stack depth is unbounded",
              "serde's own Serialize/Deserialize impls for std types are restated in specs/gen_std.py (clients of the contracts)"] + list(extra_assume)
    viol = None
    if rp.get("failed"):
        obj = {"property": prop, "kind": "failing input on the real code", "case": rp.get("case"), "expected": rp.get("expected"), "observed": rp.get("observed"), "replay_cmd": rp.get("cmd"),
               "failed_obligations": errs}
        viol = (obj, "")
    else:
        c = [i for i in mycore if conclusive(r, i)]
        if c:
            obj = {"property": prop, "kind": "failed obligation", "functions": c, "failed_obligations": [e for e in errs if e["function"] in c], "verifier_cmd": r.cmd}
            viol = (obj, " no-failing-input-found")
    if viol is None and not proved:
        # not proved and not refuted: what was explored is the bounded replay alone
        cov["explanation"] = "the proof does not cover the current text of the code (see not_proved); what this run establishes is the bounded replay only"
        cov["evaluations"] = rp.get("evaluations", 0); cov["distinct_nontrivial"] = rp.get("distinct", 0); cov["rule"] = rule; cov["samples"] = rp.get("samples", [])[:6]
        level = "other"
    write_evidence(prop, level, cov, assume, 1 if viol else 0)
    for l in known():
        if l.startswith(f"KNOWN-FINDING: property={prop} "):
            print(l)
    if viol:
        p = write_replay(prop, viol[0])
        for e in viol[0].get("failed_obligations", [])[:3]:
            print(f"failed obligation in {e['function']}: {e['message']}")
        if viol[0].get("case"):
            print("case:", viol[0]["case"][:500]); print("expected:", str(viol[0]["expected"])[:300]); print("observed:", str(viol[0]["observed"])[:300])
        print(f"VIOLATION property={prop} replay={p}{viol[1]}")
        sys.exit(1)
    print(f"{prop}: {discharged}/{nob} obligations discharged, {rp.get('evaluations', 0)} replayed cases agree, {time.time() - T0:.0f} s" + ("" if proved else f" (not proved: {'; '.join(notproved)[:300]})"))
    sys.exit(0)
