#!/usr/bin/env python3
"""Check of C15/C16: the real output of the derive macros for a family of enums, extracted and verified against contracts
computed from the enums' declarations; plus a replay of values and byte strings on the compiled code. usage: check_der.py PROP"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import famlib, derfam
from decide import decide, violation
from check_rt import SPECS

NRND = 4 if TIER == "quick" else 14
CARGO = """[package]
name = "vx_fam"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
path = "lib.rs"
[[bin]]
name = "{bin}"
path = "main.rs"
[dependencies]
serde = {{ version = "1", features = ["derive"] }}
serde_xdr = {{ path = "/repo/serde-xdr" }}
serde_xdr_derive = {{ path = "/repo/serde-xdr-derive" }}
[profile.dev]
opt-level = 0
debug = 0
overflow-checks = true
incremental = false
"""
def write_family(wd, items, binname, big=()):
    os.makedirs(wd, exist_ok=True)
    open(wd + "/Cargo.toml", "w").write(CARGO.format(bin=binname))
    open(wd + "/lib.rs", "w").write(famlib.rust(items))
    tests = [f"%{x.name}%" for x in items] + [f"Vec<%{x.name}%>" for x in items[:2]] + [f"(u8, %{items[-1].name}%)"]
    big_src = ""
    if big:
        open(wd + "/big.rs", "w").write(famlib.rust(big))
        tests += [f"%{x.name}%" for x in big]
        big_src = "mod big;\nuse big::*;\n" + famlib.replay_impl(big)
    open(wd + "/main.rs", "w").write("use vx_fam::*;\n" + big_src + open(VERIF + "/replay/common/refcodec.rs").read() + famlib.replay_impl(items) + famlib.replay_main(tests) + "fn main() { drive(run) }\n")
    open(wd + "/fam.vspec", "w").write(famlib.specs(items))

def family(prop):
    return derfam.core_indexer() + derfam.rand_family("indexer", SEED, NRND) if prop == "C15" else derfam.core_union() + derfam.rand_family("union", SEED, NRND)
def main(prop):
    wd = f"{WORK}/{prop}"
    fam = wd + "/fam"
    kind, name = ("indexer", "XdrIndexer") if prop == "C15" else ("union", "XdrUnion")
    items = family(prop)
    build_vx()
    rt = expand("serde_xdr", wd)
    write_family(fam, items, f"vx_{prop.lower()}", derfam.big(kind))
    rc, _, err = sh(["cargo", "build", "--offline", "-q"], cwd=fam, CARGO_TARGET_DIR=WORK + "/famtgt")
    if rc != 0:
        violation(prop, {"kind": "the macro's output does not compile", "case": "the family of enums in " + fam + "/lib.rs", "source": famlib.rust(items), "observed": err[-4000:]})
    src = expand("vx_fam", fam, cwd=fam)
    rp = replay(prop.lower(), prop, 150 if TIER == "quick" else 3000, [], wd, timeout=400, tgt=WORK + "/famtgt")
    en = [x for x in items if isinstance(x, famlib.Enum) and x.kind == kind]
    core = [rf"^fam::Serialize\[{x.name}\]::serialize$" for x in en] + [rf"^fam::Deserialize\[{x.name}\]::deserialize$" for x in en] + [rf"^fam::Visitor->{x.name}::visit_seq$" for x in en]
    support = [r"^fam::", r"trait Xdr", r"SerializeTuple::", r"Serializer::serialize_tuple$", r"Deserializer::deserialize_tuple$", r"SeqAccess::", r"Seq::new"]
    nvar = sum(len(x.variants) for x in en)
    decide(prop, lambda tag, extra: verify([(rt, ""), (src, "fam")], SPECS + [fam + "/fam.vspec"], wd, tag, extra), core, support, [r"^g::spec_(" + "|".join(x.name for x in items) + ")::"], rp,
           source=f"output of the {name} derive macro for {len(en)} enums with {nvar} variants (family in tools/derfam.py, seed {SEED}), and serde-xdr/src/*.rs it calls",
           rule="per type of the family: random values encoded and compared with a reference encoder (two enums with up to 64 fields and 120 variants are replayed only), then decoded from the encoding, from it with bytes missing, added or changed, and from extreme selectors; a case counts once per distinct input",
           level="translation_validation", extra_cov={"programs": len(en), "disagreements_checked": len(en) * 3, "samples": [f"{x.name}: " + ", ".join(f"{v}={k}({', '.join(ts or [])})" for v, k, ts in x.variants)[:200] for x in en[:6]]},
           extra_assume=["the macro is judged by its output for the family's enums; the selection functions (XdrIndexer/XdrUnion impls) are the user's and verified against the declared table"])

if __name__ == "__main__":
    try:
        main(sys.argv[1])
    except Broken as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
