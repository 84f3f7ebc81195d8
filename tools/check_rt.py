#!/usr/bin/env python3
"""Check of one runtime property (C01..C14): contracts on the extracted serde_xdr sources, discharged by Verus, plus a
replay of concrete inputs on the real crate. usage: check_rt.py PROP"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import rtprops
from decide import decide

SPECS = [f"{VERIF}/specs/{s}.vspec" for s in ("shims", "serde", "serde_std_gen", "serde_xdr", "serde_xdr_gen")]

def main(prop):
    wd = f"{WORK}/{prop}"
    os.makedirs(wd, exist_ok=True)
    build_vx()
    src = expand("serde_xdr", wd)
    srcs = [(src, "")]
    lits = literals([f"{REPO}/serde-xdr/src/{f}.rs" for f in ("de", "ser", "opaque", "primitive", "error")])
    build_replay("rt")
    rp = replay("rt", prop, 3000 if TIER == "quick" else 40000, lits, wd, timeout=300 if TIER == "quick" else 700)
    core, support = rtprops.P[prop]
    decide(prop, lambda tag, extra: verify(srcs, SPECS, wd, tag, extra), core, support, rtprops.LEMMAS.get(prop, []), rp,
           source="serde-xdr/src/{de,ser,opaque,primitive,error}.rs after macro expansion",
           rule="directed boundary cases (every length up to 40, powers of two, literals of the code) and seeded random values, types and byte strings, "
                "run through the real crate and compared with an independent reference codec; a case is counted once per distinct input")

if __name__ == "__main__":
    try:
        main(sys.argv[1])
    except Broken as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
