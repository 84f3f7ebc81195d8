#!/usr/bin/env python3
"""Check of C21/C22/C23: the generator's real output for a family of interface definitions under every option combination, compiled,
extracted and verified against contracts computed from the definitions; plus a replay on the compiled output. usage: check_gen.py PROP"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import famlib, genfam, xdrfam
from decide import decide, violation
from check_rt import SPECS
from check_der import CARGO

NRND = 2 if TIER == "quick" else 8
def families(prop, e, u):
    """(definitions, typedefs removed, what is done: proved; replayed: compared with the reference codec; maybe: may be refused,
    compared on the wire)"""
    s = f"{SEED}{e}{u}"
    if prop == "C21":
        big = (e, u) == ("comp", "comp")
        return ([(genfam.structs(small=not big), 1, "proved"), (genfam.recursive(), 1, "replayed"), (genfam.structs(kept=True), 0, "replayed")]
                + ([(genfam.structs(), 1, "replayed")] if not big else []) + ([(genfam.rand_struct(s, NRND * 3), 1, "proved")] if (e, u) == ("idx", "uni") else [])
                + [(q, 0, "maybe") for q in genfam.opaque_typedefs()])
    if prop == "C22": return [(genfam.enums(), 1, "proved"), (genfam.rand_enum(s, NRND), 1, "proved"), (genfam.extremes(), 1, "proved"), (genfam.enums(), 0, "replayed")]
    return [(genfam.unions(e, u), 1, "proved"), (genfam.rand_union(s, NRND, u), 1, "proved"), (genfam.unions(e, u, kept=True), 0, "replayed")] + ([(genfam.idx_defaults(), 1, "replayed")] if u == "idx" else [])

def generate(prop, spec, rm, e, u, maybe=False):
    import subprocess
    r = subprocess.run([WORK + "/gentgt/debug/vx_gen", str(rm), e, u], input=spec.text(), capture_output=True, text=True, timeout=60)
    opts = f"remove_typedef={rm} enum={e} union={u}"
    if r.returncode == 4 and maybe: return None
    if r.returncode != 0:
        violation(prop, {"kind": "the generator does not accept the definitions", "case": f"{opts}:\n{spec.text()}", "source": spec.text(), "expected": "generated code", "observed": (r.stdout + r.stderr)[-2000:] or f"exit code {r.returncode}"})
    return r.stdout

def build(prop, wd):
    """writes the crate of generated modules; returns its items (verified, replayed only)"""
    fam = wd + "/fam"
    os.makedirs(fam, exist_ok=True)
    ver, rep, wonly, wires = [], [], [], []
    lib = "#![allow(dead_code, unused_variables, unused_imports, non_camel_case_types, non_snake_case, non_upper_case_globals)]\n"
    big = lib
    texts = {}
    famlib.MODS.clear()
    bigmods = set()
    for c, (e, u) in enumerate(genfam.MODES):
        for j, (spec, rm, how) in enumerate(families(prop, e, u)):
            mod = f"c{c}f{j}"
            sp = spec.renamed(f"k{c}f{j}")
            text = generate(prop, sp, rm, e, u, how == "maybe")
            if text is None: continue
            try:
                it = xdrfam.items(sp, text, e, u, f"fam::{mod}")
            except xdrfam.Mismatch as m:
                violation(prop, {"kind": "the generated types do not correspond to the definitions", "case": f"remove_typedef={rm} enum={e} union={u}:\n{sp.text()}", "source": text[:6000], "expected": "one type per definition, one field per member, one variant per enumerator and case label", "observed": str(m)})
            for x in it: texts[x.name] = (sp, e, u, rm)
            for x in it:
                d = next(q for q in sp.defs if sp.names.get(q.name) == x.name)
                for ok, b in xdrfam.wire(sp, d, f"{SEED}{mod}{x.name}", 16 if TIER == "quick" else 200, e, u): wires.append(f"{x.name} {'ok' if ok else 'no'} {b.hex()}")
            if how == "proved":
                lib += f"pub mod {mod} {{ {text} }}\n"; ver += it
            else:
                big += f"pub mod {mod} {{ {text} }}\n"; bigmods.add(mod)
                if how == "replayed": rep += it
                else: wonly += it
    open(fam + "/Cargo.toml", "w").write(CARGO.format(bin=f"vx_{prop.lower()}"))
    open(fam + "/lib.rs", "w").write(lib)
    open(fam + "/big.rs", "w").write(big)
    full = [x for x in ver + rep if not getattr(x, "partial", False)]
    tests = [f"%{x.name}%" for x in full]
    nums = ""
    for x in ver:
        sp, e, u = texts[x.name][:3]
        xe = next((q for q in sp.defs if isinstance(q, xdrfam.XEnum) and sp.names[q.name] == x.name), None)
        if not xe: continue
        N = famlib.src_ty(f"%{x.name}%")
        vs = x.numbers if isinstance(x, famlib.Std) else [(v, k) for v, k, ts in x.variants]
        for v, k in vs:
            nums += f'c.case("{N}::{v} as i32"); if {N}::{v} as i32 != {k} {{ c.fail("{N}::{v} as i32", "{k}", &({N}::{v} as i32).to_string()) }}\n'
        if e == "std":
            nums += f"""for k in near(&[{', '.join(str(k) for v, k in vs)}]) {{
    let what = format!("{N}::try_from({{k}}i32)"); c.case(&what);
    let want: Option<{N}> = match k {{ {' '.join(f'{k} => Some({N}::{v}),' for v, k in vs)} _ => None }};
    let got = <{N} as TryFrom<i32>>::try_from(k).ok();
    if got != want {{ c.fail(&what, &format!("{{want:?}}"), &format!("{{got:?}}")) }}
    if let Some(v) = got {{ let n: i32 = *AsRef::<i32>::as_ref(&v); if n != k {{ c.fail(&format!("{{v:?}}.as_ref()"), &k.to_string(), &n.to_string()) }} }}
}}
"""
    allit = ver + rep
    main = "use vx_fam::*;\nmod big;\nuse big::*;\n" + open(VERIF + "/replay/common/refcodec.rs").read() + famlib.replay_impl(allit)
    main += "fn near(d: &[i32]) -> Vec<i32> { let mut v = vec![0, 1, -1, i32::MIN, i32::MAX, 255, 256, 65536, -65536]; for k in d { for j in -3..=3 { v.push(k.wrapping_add(j)); } v.push(k ^ i32::MIN); v.push(k ^ 256); } for k in -40..40 { v.push(k) } v }\n"
    part = [x for x in allit if getattr(x, "partial", False)]
    ptests = "".join(f'c.test::<{famlib.src_ty(f"%{x.name}%")}>("{x.name}");' for x in part)
    main += famlib.replay_main(tests).replace("fn run(c: &mut Ctx) {", "fn run(c: &mut Ctx) {\n" + nums + ptests)
    main += "fn main() { drive(run) }\n"
    # the test on the wire needs no knowledge of the generated types
    wt = "fn wires(c: &mut Ctx) {\n let w = std::fs::read_to_string(concat!(env!(\"CARGO_MANIFEST_DIR\"), \"/wire.txt\")).unwrap(); let w: Vec<(&str, bool, Vec<u8>)> = w.lines().map(|l| { let p: Vec<&str> = l.split(' ').collect(); (p[0], p[1] == \"ok\", (0..p[2].len() / 2).map(|k| u8::from_str_radix(&p[2][2 * k..2 * k + 2], 16).unwrap()).collect()) }).collect();\n"
    wt += "".join(f'c.wire::<{famlib.src_ty(f"%{x.name}%")}>("{x.name}", &w);\n' for x in allit + wonly) + "}\n"
    open(fam + "/wire.txt", "w").write("\n".join(wires) + "\n")
    open(fam + "/main.rs", "w").write(main.replace("fn run(c: &mut Ctx) {", "fn run(c: &mut Ctx) {\n wires(c);", 1) + wt)
    open(fam + "/main_wire.rs", "w").write("use vx_fam::*;\nmod big;\nuse big::*;\n" + open(VERIF + "/replay/common/refcodec.rs").read() + wt + "fn main() { drive(wires) }\n")
    open(fam + "/fam.vspec", "w").write(famlib.specs(ver, sorted({famlib.MODS[x.name] for x in ver})))
    return fam, ver, rep, texts

def main(prop):
    wd = f"{WORK}/{prop}"
    build_vx()
    rc, _, err = sh(["cargo", "build", "--offline", "-q"], cwd=VERIF + "/gen", CARGO_TARGET_DIR=WORK + "/gentgt")
    if rc != 0: raise Broken("the generator does not build: " + err[-2000:])
    fam, ver, rep, texts = build(prop, wd)
    rt = expand("serde_xdr", wd)
    rc, _, err = sh(["cargo", "build", "--offline", "-q"], cwd=fam, CARGO_TARGET_DIR=WORK + "/famtgt")
    if rc != 0:
        # the reference codec may not fit the types: the comparison on the wire remains
        full = err
        os.replace(fam + "/main_wire.rs", fam + "/main.rs")
        rc, _, err = sh(["cargo", "build", "--offline", "-q"], cwd=fam, CARGO_TARGET_DIR=WORK + "/famtgt")
        print("the types are not the expected ones, only their form on the wire is compared:", full[:300])
    if rc != 0:
        violation(prop, {"kind": "the generated code does not compile", "case": "the definitions of the family; generated code in " + fam + "/lib.rs", "source": open(fam + "/lib.rs").read()[:20000], "expected": "code that compiles", "observed": err[-4000:]})
    src = expand("vx_fam", fam, cwd=fam)
    rp = replay(prop.lower(), prop, 40 if TIER == "quick" else 800, [], wd, timeout=400, tgt=WORK + "/famtgt")
    kind = {"C21": (famlib.Struct,), "C22": (famlib.Enum, famlib.Std), "C23": (famlib.Enum,)}[prop]
    def wanted(x):
        sp = texts[x.name][0]
        d = next(q for q in sp.defs if sp.names.get(q.name) == x.name)
        return isinstance(d, {"C21": xdrfam.XStruct, "C22": xdrfam.XEnum, "C23": xdrfam.XUnion}[prop])
    main_ = [x for x in ver if wanted(x)]
    names = "(" + "|".join(x.name for x in main_) + ")"
    core = [rf"\[{names}\]::(serialize|deserialize)$", rf"^fam::.*Visitor(->|\[__Visitor_){names}\b", rf"\[(std::marker::PhantomData<)?__\w+_{names}(_\d+)?\b", rf"Xdr(Indexer|Union)\[{names}\]::", rf"Vx(AsRef|TryFrom)\[{names}\]::"]
    support = [r"^fam::", r"trait Xdr", r"Serialize(Tuple|Struct)::", r"Serializer::serialize_(tuple|struct|unit_variant|newtype_variant)$", r"Deserializer::deserialize_(tuple|struct|enum)$", r"SeqAccess::", r"EnumAccess::", r"VariantAccess::", r"Seq::new", r"^opaque::", r"^primitive::"]
    allnames = "(" + "|".join(x.name for x in ver) + ")"
    decide(prop, lambda tag, extra: verify([(rt, ""), (src, "fam")], SPECS + [fam + "/fam.vspec"], wd, tag, extra, timeout=600), core, support, [rf"^g::spec_{allnames}::"], rp,
           source=f"output of rpcgen::gen_code for {len(main_)} definitions under {len(genfam.MODES)} option combinations (family in tools/genfam.py, seed {SEED}), and serde-xdr/src/*.rs it calls",
           rule="per generated type: random values encoded and compared with a reference encoder computed from the definition, then decoded from the encoding, from it with bytes missing, added or changed; discriminants and conversions of every enum; a case counts once per distinct input",
           level="translation_validation", extra_cov={"programs": len(main_), "disagreements_checked": len(main_) * 2, "samples": [f"{texts[x.name][1:]}: {x.name}" for x in main_[:6]]},
           extra_assume=["the generator is judged by its output for the family's definitions", "the generated types are matched with the definitions by name (up to case and underscores), members by position, enumerators by number"])

if __name__ == "__main__":
    try:
        main(sys.argv[1])
    except Broken as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
