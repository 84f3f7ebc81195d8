import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
build_vx()
os.makedirs(WORK + "/setup", exist_ok=True)
expand("serde_xdr", WORK + "/setup")
for c in sorted(os.listdir(VERIF + "/replay")):
    if os.path.exists(f"{VERIF}/replay/{c}/Cargo.toml"):
        build_replay(c)
import check_der, derfam
for p, k in (("C15", "indexer"), ("C16", "union")):
    items = check_der.family(p)
    check_der.write_family(f"{WORK}/{p}/fam", items, f"vx_{p.lower()}", derfam.big(k))
    sh(["cargo", "build", "--offline", "-q"], cwd=f"{WORK}/{p}/fam", CARGO_TARGET_DIR=WORK + "/famtgt")
    expand("vx_fam", f"{WORK}/{p}/fam", cwd=f"{WORK}/{p}/fam")
sh(["cargo", "build", "--offline", "-q"], cwd=VERIF + "/gen", CARGO_TARGET_DIR=WORK + "/gentgt")
print("setup done")
