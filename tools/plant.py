#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from (id, property, [(file, old, new)], needs, breaks, demo main.rs) and confirms it in a scratch copy:
the patch applies, builds, passes the stable tests, and its demo fails with it and passes without. usage: plant.py FILE.py [ids]"""
import json, os, shutil, subprocess, sys, importlib.util
VERIF = "/verif"; SCR = "/tmp/plant"
def sh(c, **k):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k); return p.returncode, p.stdout
DEMO = """#!/bin/bash
# builds the small program beside this file against /repo and runs it: exit 0 when the property holds on its inputs
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
cp -r "$here/demo/." "$d/"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
(cd "$d" && timeout -k 5 250 cargo run --offline -q)
rc=$?
rm -rf "${d:?}"
exit $rc
"""
TOML = """[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
serde = { version = "1", features = ["derive"] }
serde_xdr = { path = "/repo/serde-xdr" }
"""
TOML_RPC = """[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
rpcgen = { path = "/repo/rpcgen" }
"""
TOML_DER = TOML + 'serde_xdr_derive = { path = "/repo/serde-xdr-derive" }\n'
TOML_GEN = TOML_DER + '\n[build-dependencies]\nrpcgen = { path = "/repo/rpcgen" }\n'
BUILD_RS = r'''use rpcgen::gen_code::{gen_code, Config};
fn main() {
    // each definition under each set of options becomes a module
    let specs: &[(&str, &str, Config)] = &[%s];
    let mut out = String::new();
    for (name, text, config) in specs {
        let code = gen_code(rpcgen::parser::parse(text).expect("parses"), config);
        let code = match code { Ok(c) => c, Err(_) => { println!("cargo:warning={name}: refused"); String::new() } };
        out += &format!("#[allow(dead_code, unused_imports)] pub mod {name} {{ {code} }}\n");
    }
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("gen.rs"), out).unwrap();
}
'''
MAIN_GEN = r'''include!(concat!(env!("OUT_DIR"), "/gen.rs"));
#[allow(unused)]
fn enc<T: serde::Serialize>(v: &T) -> Result<Vec<u8>, String> { serde_xdr::to_bytes(v).map_err(|e| format!("{e:?}")) }
#[allow(unused)]
fn dec<T: serde::de::DeserializeOwned + serde::Serialize>(b: &[u8]) -> Result<Vec<u8>, String> { let v: T = serde_xdr::from_bytes(b).map_err(|e| format!("{e:?}"))?; enc(&v) }
macro_rules! eq { ($bad:ident, $what:expr, $a:expr, $b:expr) => {{ let (a, b) = ($a, $b); if a != b { println!("{}: got {:?}, expected {:?}", $what, a, b); $bad += 1; } }} }
fn main() {
    let mut bad = 0;
%s
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
'''
def main():
    sp = importlib.util.spec_from_file_location("b", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    want = sys.argv[2:]
    os.makedirs(SCR, exist_ok=True)
    for b in m.BUGS:
        i = b["id"]
        if want and i not in want: continue
        if not want and os.path.exists(f"{VERIF}/seeded/{i}/patch.diff"): continue
        d = f"{SCR}/stage/{i}"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo")
        open(d + "/demo.sh", "w").write(b.get("demo_sh", DEMO)); os.chmod(d + "/demo.sh", 0o755)
        if "files" in b:
            for n, t in b["files"].items():
                os.makedirs(os.path.dirname(f"{d}/demo/{n}") or ".", exist_ok=True); open(f"{d}/demo/{n}", "w").write(t)
        if b.get("dep") == "gen":
            cfg = lambda o: "Config { " + "".join(f"{k}: true, " for k in o) + "..Default::default() }"
            open(d + "/demo/build.rs", "w").write(BUILD_RS % ", ".join(f'("{n}", r##"{t}"##, {cfg(o)})' for n, t, o in b["specs"]))
            b["main"] = MAIN_GEN % b["main"]
        if "main" in b:
            open(d + "/demo/main.rs", "w").write(b["main"])
            open(d + "/demo/Cargo.toml", "w").write({"rt": TOML, "rpc": TOML_RPC, "der": TOML_DER, "gen": TOML_GEN}[b.get("dep", "rt")])
            lock = {"rt": "rt", "rpc": "rpc", "der": "der", "gen": "gen"}[b.get("dep", "rt")]
            # a lock file keeps cargo from looking for versions the cache does not have
            if os.path.exists(f"{SCR}/lock-{lock}"): shutil.copy(f"{SCR}/lock-{lock}", d + "/demo/Cargo.lock")
            else:
                rc, o = sh("cargo generate-lockfile --offline", cwd=d + "/demo")
                if rc: print(i, "lock", o[-800:]); continue
                shutil.copy(d + "/demo/Cargo.lock", f"{SCR}/lock-{lock}")
        rc, o = sh("git status --porcelain", cwd="/repo")
        assert not o.strip(), "/repo not clean"
        rc, o = sh(f"bash {d}/demo.sh", cwd="/repo")
        if rc: print(i, "DEMO FAILS ON CLEAN", o[-1500:]); continue
        try:
            okp = True
            for f, old, new in b["edits"]:
                t = open("/repo/" + f).read()
                n = b.get("nth", 1) if t.count(old) > 1 else 1
                if t.count(old) < 1 or (t.count(old) > 1 and "nth" not in b): print(i, "edit not unique", t.count(old), old[:60]); okp = False; break
                parts = t.split(old); t = old.join(parts[:n]) + new + old.join(parts[n:])
                open("/repo/" + f, "w").write(t)
            if not okp: continue
            rc, diff = sh("git diff", cwd="/repo")
            open(d + "/patch.diff", "w").write(diff)
            rc, o = sh("bash /opt/vp/build.sh", cwd="/repo")
            if rc: print(i, "BUILD", o[-1500:]); continue
            rc, o = sh(f"bash /opt/vp/test.sh {SCR}/t.json", cwd="/repo")
            if rc: print(i, "TESTS FAIL", o[-1200:]); continue
            rc, o = sh(f"bash {d}/demo.sh", cwd="/repo")
            if rc == 0: print(i, "DEMO PASSES WITH BUG"); continue
            last = o.strip().splitlines()[-3:]
        finally:
            sh("git checkout -- .", cwd="/repo")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(f"{VERIF}/seeded/{i}", ignore_errors=True)
        shutil.copytree(d, f"{VERIF}/seeded/{i}")
        print(i, "kept:", " | ".join(last)[:200])
main()
