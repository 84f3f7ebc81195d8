//! Replays the parser and generator properties on the real crate. usage: vx_rpc PROP SEED ROUNDS OUT [literals...]
mod reference;
mod drive;
mod ast;
mod gen;
use drive::*;
use rpcgen::parser::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn real(s: &str) -> Result<Option<Vec<Definition>>, String> { catch_unwind(AssertUnwindSafe(|| parse(s).ok())).map_err(|_| "a panic".to_string()) }
fn show(x: &Option<Vec<Definition>>) -> String { match x { Some(v) => format!("Ok({v:?})"), None => "an error".into() } }
/// the text means what the reference parser says it means
fn agree(c: &mut Ctx, s: &str) -> Option<Vec<Definition>> {
    let want = reference::parse(s);
    let what = format!("parse({s:?})"); c.case(&what);
    match real(s) { Err(p) => c.fail(&what, &show(&want), &p), Ok(got) => if got != want { c.fail(&what, &show(&want), &show(&got)) } }
    want
}
/// the text of these definitions, in some layout, is read as these definitions
fn exact(c: &mut Ctx, d: &[Definition], s: &str) {
    let what = format!("parse({s:?})"); c.case(&what);
    let want = Some(d.to_vec());
    let r = reference::parse(s);
    assert!(r == want, "the reference parser and the printer disagree on {s:?}: {r:?} {want:?}");
    match real(s) { Err(p) => c.fail(&what, &show(&want), &p), Ok(got) => if got != want { c.fail(&what, &show(&want), &show(&got)) } }
}
fn corpus(c: &mut Ctx) -> Vec<String> {
    let mut v: Vec<String> = ast::FRAGMENTS.iter().map(|s| s.to_string()).collect();
    for _ in 0..20 { let d = c.ast().spec(3); let s = c.layout(&d); v.push(s) }
    v
}
fn hurt(c: &mut Ctx, s: &str) -> String {
    let mut t: Vec<char> = s.chars().collect();
    for _ in 0..1 + c.r.below(2) {
        let k = c.r.below(t.len() + 1);
        match c.r.below(6) {
            0 if k < t.len() => { t.remove(k); }
            1 => { let x = c.r.one(&['{', '}', '(', ')', '[', ']', '<', '>', ';', ':', ',', '=', '*', ' ', '\n', '_', '0', 'a', 'x', '/', '%', '-', 'é', '\u{3000}', '\0', '\r']); t.insert(k, x) }
            2 => { let w = c.r.one(ast::WORDS); let w: Vec<char> = w.chars().collect(); t.splice(k..k, w); }
            3 if k < t.len() => { let e = (k + 1 + c.r.below(6)).min(t.len()); t.drain(k..e); }
            4 if k < t.len() => { let e = (k + 1 + c.r.below(8)).min(t.len()); let p: Vec<char> = t[k..e].to_vec(); let q = c.r.below(t.len() + 1); t.splice(q..q, p); }
            _ => t.truncate(k),
        }
    }
    t.into_iter().collect()
}
fn literals(c: &mut Ctx) {
    let mut texts: Vec<(String, Option<i128>, usize)> = vec![];
    let mut ns: Vec<i128> = vec![];
    for k in 0..70 { for d in [-2i128, -1, 0, 1, 2] { ns.push((1i128 << k) + d); ns.push(-(1i128 << k) + d) } }
    for k in 0..22 { for d in [-1i128, 0, 1, 7] { ns.push(10i128.pow(k) + d) } }
    for &l in &c.lits { for d in [-1i128, 0, 1] { ns.push(l as i128 + d) } }
    for _ in 0..c.rounds { let b = c.r.below(67) as u32; let x = (((c.r.n() as u128) << 64 | c.r.n() as u128) >> (127 - b)) as i128; ns.push(if c.r.below(3) == 0 { -x } else { x }) }
    for n in ns {
        texts.push((format!("{n}"), Some(n), 0));
        if n >= 0 {
            let z = "0".repeat(c.r.below(4));
            texts.push((format!("0x{z}{n:x}"), Some(n), 1)); texts.push((format!("0x{z}{n:X}"), Some(n), 1));
            let m: String = format!("{n:x}").chars().enumerate().map(|(k, x)| if k % 2 == 0 { x.to_ascii_uppercase() } else { x }).collect();
            texts.push((format!("0x{m}"), Some(n), 1));
            texts.push((format!("0{z}{n:o}"), Some(n), 2));
        }
    }
    for s in ["-0", "--1", "+1", "0X1", "0x", "0xg", "08", "09", "018", "1a", "1_0", "-", "-x", "-01", "-0x1", "1.0", "0b1", "0o7", "", "1 2", "- 1", "9a", "00x1", "0x-1", "0-1", "0x+1", "0+7", "1-", "12e3"] { texts.push((s.into(), None, 3)) }
    let max = texts.len();
    for (s, n, _) in texts.into_iter().take(max) {
        // in every place where a number may be written
        for t in [format!("const A = {s};"), format!("struct s {{ int a[{s}]; opaque b<{s}>; }};"), format!("enum e {{ A = {s}, B = {s} }};"), format!("union u switch (int x) {{ case {s}: int a[{s}]; default: void; }};")] { agree(c, &t); if c.n % 3 == 0 { break } }
        let src = format!("const A = {s} ;");
        let got = real(&src);
        let what = format!("the literal {s} in a definition"); c.case(&what);
        let Ok(Some(v)) = &got else { if n.is_some() && !(s.starts_with("-0")) { c.fail(&what, &format!("{n:?}"), &format!("{got:?}")) } continue };
        let Definition::Constant(Assign { value: Value::Constant(k), .. }) = &v[0] else { c.fail(&what, &format!("the number {n:?}"), &format!("{v:?}")) };
        if let Some(n) = n {
            macro_rules! ty { ($($t:ty),*) => { $(
                let want = if n >= <$t>::MIN as i128 && n <= <$t>::MAX as i128 { Some(n as $t) } else { None };
                let what = format!("the literal {s} as {}", stringify!($t)); c.case(&what);
                let g = catch_unwind(AssertUnwindSafe(|| k.value::<$t>().ok()));
                if g.as_ref().ok() != Some(&want) { c.fail(&what, &format!("{want:?}"), &format!("{g:?}")) }
                let vv = Value::Constant(k.clone());
                let g = catch_unwind(AssertUnwindSafe(|| vv.constants::<$t>().ok()));
                if g.as_ref().ok() != Some(&want.map(Some)) { c.fail(&what, &format!("{want:?}"), &format!("{g:?}")) }
            )* } }
            ty!(i32, u32, u64, usize);
        }
    }
}
fn words(c: &mut Ctx) {
    // every word, and every word with something before or after it, wherever a type or a name may stand
    let mut w: Vec<String> = vec![];
    for k in ast::WORDS { for p in ["", "_", "x", "X"] { for s in ["", "_", "s", "32", "_t", "T", "x9"] { w.push(format!("{p}{k}{s}")) } } w.push(k[..k.len() - 1].to_string()); w.push(k.to_uppercase()) }
    for n in ["a", "A", "_", "__", "_1", "a1", "A_b_9", "zZ", "été", "a-b", "1a", "a b", "TRUE", "FALSE"] { w.push(n.to_string()) }
    let gaps = [" ", "\t", "\n", "  ", "\r\n"];
    for a in &w {
        for t in ["T n;", "T *n;", "T* n;", "T*n;", "T  n[2];", "T n<>;", "T n<N>;", "T n<4>;", "int T;", "unsigned T n;", "unsigned int T;", "opaque T[3];", "opaque T<>;", "string T<7>;", "T n[T];", "hyper *T;", "struct { T T; } T;", "enum { T = 1 } n;", "unsigned T *n;"] {
            let g = c.r.one(&gaps); let m = t.replace('T', a).replacen(' ', g, 1);
            match c.r.below(4) { 0 => agree(c, &format!("typedef {m}")), 1 => agree(c, &format!("union u switch (T x) {{ case 1: {m} default: {m} }};").replace('T', a)), _ => agree(c, &format!("struct s {{ {m} int z; }};")) };
        }
        for t in ["struct T { int a; };", "union T switch (int T) { case T: void; };", "const T = 1;", "enum T { a = 1 };", "enum e { T = 1, U = T };", "typedef T T;", "program T { version v { T m(T) = 1; void T(void) = 2; } = 1; } = 2;", "void n;", "typedef void;", "union u switch (T x) { case 1: void; };"] { agree(c, &t.replace('T', a)); }
    }
}
fn specs(c: &mut Ctx, n: usize) {
    for k in 0..n {
        let size = if k % 20 == 19 { 12 } else { 1 + c.r.below(5) };
        let d = c.ast().spec(size); let s = c.layout(&d);
        exact(c, &d, &s);
        if k % 3 == 0 { let s = ast::plain(&d); exact(c, &d, &s) }
    }
}
fn mutants(c: &mut Ctx, n: usize) {
    let v = corpus(c);
    for s in &v { agree(c, s); }
    for f in ast::FRAGMENTS { let t: Vec<char> = f.chars().collect(); for k in 0..=t.len() { let a: String = t[..k].iter().collect(); agree(c, &a); if k < t.len() { let b: String = t[..k].iter().chain(&t[k + 1..]).collect(); agree(c, &b); for g in [" ", "/* c */", "\n"] { let d: String = format!("{}{g}{}", t[..k].iter().collect::<String>(), t[k..].iter().collect::<String>()); agree(c, &d); } } } }
    for _ in 0..n { let s = c.r.one(&v); if s.len() > 700 { continue } let h = hurt(c, &s); agree(c, &h); }
}
fn main() {
    drive(|c| match c.prop.as_str() {
        "C17" => { literals(c); }
        "C18" => { words(c); let n = c.rounds; specs(c, n) }
        "C19" => { let n = c.rounds; specs(c, n); mutants(c, n * 6) }
        "C20" => gen::c20(c),
        "C24" => gen::c24(c),
        "C25" => gen::c25(c),
        p => panic!("unknown property {p}"),
    })
}
