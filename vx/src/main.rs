//! vx: mechanical extraction of the functions of a Rust crate (its macro-expanded source) into one
//! Verus file, with contracts attached by function identity. Everything this program rewrites, drops
//! or abstracts is listed in the "notes" of its map output.
mod emit;
mod rewrite;
mod rpc;
mod spec;

use std::collections::{BTreeMap, BTreeSet};
use std::fs;

fn main() {
    let mut src: Vec<String> = vec![];
    let mut specs: Vec<String> = vec![];
    let (mut out, mut map) = (String::new(), String::new());
    let mut drop_helpers = false;
    let mut rpc = false;
    let mut drop_contracts: BTreeSet<String> = BTreeSet::new();
    let mut modname: Vec<String> = vec![];
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut nx = || a.next().expect("argument");
        match x.as_str() {
            "--src" => src.push(nx()),
            "--as" => modname.push(nx()),
            "--spec" => specs.push(nx()),
            "--out" => out = nx(),
            "--map" => map = nx(),
            "--rpc" => rpc = true,
            "--drop-helpers" => drop_helpers = true,
            "--drop" => {
                drop_contracts.insert(nx());
            }
            _ => panic!("unknown argument {x}"),
        }
    }
    let mut sp = spec::Spec::default();
    for s in &specs {
        let t = fs::read_to_string(s).expect("spec file");
        sp.parse(&t);
    }
    if drop_helpers {
        sp.drop_helpers();
    }
    for d in &drop_contracts {
        sp.fns.remove(d);
    }
    let mut cx = rewrite::Ctx::new(sp);
    let mut files = vec![];
    for (i, s) in src.iter().enumerate() {
        let t = fs::read_to_string(s).expect("source file");
        let t = strip(&t);
        let f = match syn::parse_file(&t) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("vx: cannot parse {s}: {e}");
                std::process::exit(3);
            }
        };
        files.push((modname.get(i).cloned().unwrap_or_default(), f));
    }
    let mods = if rpc {
        let mut r = rpc::Rpc::new(cx);
        let m = r.run(files);
        cx = r.cx;
        m
    } else {
        cx.run(files)
    };
    let (text, fns) = emit::emit(&mut cx, &mods);
    fs::write(&out, text).unwrap();
    let unused: Vec<String> = cx
        .spec
        .fns
        .iter()
        .filter(|(k, c)| !cx.used.contains(*k) && !c.optional)
        .map(|(k, _)| k.clone())
        .collect();
    let mut notes: BTreeMap<String, usize> = BTreeMap::new();
    for n in &cx.notes {
        *notes.entry(n.clone()).or_default() += 1;
    }
    let j = serde_json::json!({"functions": fns, "missing": unused, "notes": notes, "structural": cx.structural});
    fs::write(&map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn strip(t: &str) -> String {
    // crate-level attributes (possibly over several lines) and the prelude import that rustc's expansion adds
    let mut out = vec![];
    let mut depth = 0i32;
    for l in t.lines() {
        if depth > 0 || l.starts_with("#![") {
            depth += l.matches('[').count() as i32 - l.matches(']').count() as i32;
            continue;
        }
        if !l.starts_with("#[prelude_import]") && !l.starts_with("#[macro_use]") {
            out.push(l);
        }
    }
    out.join("\n")
}
