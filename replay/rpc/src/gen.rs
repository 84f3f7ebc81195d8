//! What the generator makes of definitions: numbers of names (C20), no crash (C24), names (C25).
use crate::drive::*;
use rpcgen::gen_code::{gen_code, Config};
use rpcgen::parser::*;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn config(k: usize) -> Config { Config { remove_typedef: k & 1 != 0, enum_impl_indexer: k & 2 != 0, enum_impl_std_trait: k & 4 != 0, union_impl_indexer: k & 8 != 0, union_impl_union: k & 16 != 0 } }
fn opts(k: usize) -> String { ["remove_typedef", "enum_impl_indexer", "enum_impl_std_trait", "union_impl_indexer", "union_impl_union"].iter().enumerate().filter(|(b, _)| k >> b & 1 != 0).map(|(_, s)| *s).collect::<Vec<_>>().join("+") }
fn run(c: &mut Ctx, what: &str, d: &[Definition], k: usize) -> Option<String> {
    c.case(what); c.begin(what);
    let r = catch_unwind(AssertUnwindSafe(|| gen_code(d.to_vec(), &config(k)).ok()));
    c.done();
    match r { Ok(x) => x, Err(e) => { let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); c.fail(what, "generated code or an error", &format!("a panic: {m}")) } }
}
fn text(d: &[Definition], k: usize) -> String { format!("gen_code of {} with {}", crate::ast::plain(d).trim(), opts(k)) }
fn id(s: &str) -> Value { Value::Identifier(s.to_string()) }
fn num(c: &mut Ctx) -> Value {
    let n = match c.r.below(4) { 0 => c.r.below(5) as u64, 1 => c.r.below(1000) as u64, 2 => c.r.n() >> c.r.below(64), _ => c.r.one(&[0, 9, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, u64::MAX]) };
    Value::Constant(match c.r.below(5) { 0 => Constant::Hex(format!("{n:x}")), 1 => Constant::Octal(format!("{n:o}")), 2 if n > 0 => Constant::Decimal(format!("-{n}")), _ => Constant::Decimal(n.to_string()) })
}

// ------------------------------------------------------------------------------------------- C20
struct Names { konst: HashMap<String, Value>, enumr: HashMap<String, Value> }
impl Names {
    fn of(d: &[Definition]) -> Names {
        let mut n = Names { konst: HashMap::new(), enumr: HashMap::new() };
        for x in d { match x {
            Definition::Constant(a) => { n.konst.insert(a.identifier.clone(), a.value.clone()); }
            Definition::Type(TypeDef::Enum(_, v)) => for a in v { n.enumr.insert(a.identifier.clone(), a.value.clone()); },
            _ => {}
        } }
        n
    }
    fn value(&self, v: &Value, seen: &mut HashSet<String>) -> Option<i128> {
        match v {
            Value::Constant(Constant::Decimal(s)) => s.parse().ok(),
            Value::Constant(Constant::Hex(s)) => i128::from_str_radix(s, 16).ok(),
            Value::Constant(Constant::Octal(s)) => i128::from_str_radix(s, 8).ok(),
            Value::Identifier(s) => { if !seen.insert(s.clone()) { return None } self.value(self.konst.get(s).or_else(|| self.enumr.get(s))?, seen) }
        }
    }
    fn get(&self, v: &Value, lo: i128, hi: i128) -> Option<i128> { let n = self.value(v, &mut HashSet::new())?; if lo <= n && n <= hi { Some(n) } else { None } }
}
const POOL: &[&str] = &["A", "B", "C", "D", "E", "F", "G9", "Hh", "Kxy", "TRUE", "FALSE"];
/// a name whose variant is called the same; nothing for the others
fn known(s: &str) -> &str { if POOL.contains(&s) { s } else { "" } }
/// names that differ in little from one another or from those of the types
fn near(c: &mut Ctx) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < 11 {
        let mut s: String = if v.is_empty() || c.r.below(4) == 0 { c.r.one(&["a", "Ab", "max_len", "K", "x1", "Ty0", "Ty1", "Sz0", "Un", "arr", "opq", "k", "A_B", "TRUE", "int32", "_"]).to_string() } else { c.r.one(&v) };
        match c.r.below(12) {
            0 => s = s.to_uppercase(), 1 => s = s.to_lowercase(), 2 => s = format!("_{s}"), 3 => s = format!("{s}_"), 4 => s = s.replace('_', "__"), 5 => s = s.replace('_', ""),
            6 => s = format!("{s}{}", c.r.below(10)), 7 => s = s.trim_matches('_').to_string(), 8 => { s.pop(); }
            9 => { let k = c.r.below(s.len()); s = s.chars().enumerate().map(|(i, x)| if i == k { if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() } } else { x }).collect() }
            10 => { let t = c.r.one(POOL); s = format!("{s}{t}") }
            _ => {}
        }
        if s.is_empty() || s.starts_with(|x: char| x.is_ascii_digit()) || v.contains(&s) { continue }
        v.push(s);
    }
    v
}
/// what must be in the generated code, or None for an error
fn expected(d: &[Definition], k: usize) -> Option<Vec<String>> {
    let n = Names::of(d); let mut out = vec![];
    for x in d { match x {
        Definition::Constant(a) => match n.get(&a.value, 0, u32::MAX as i128) {
            Some(v) => out.push(format!("pubconst{}:u32={v}u32;", a.identifier)),
            None => out.push(format!("pubconst{}:u64={}u64;", a.identifier, n.get(&a.value, 0, u64::MAX as i128)?)),
        },
        Definition::Type(TypeDef::Enum(_, v)) => for a in v { out.push(format!("{}={}i32", known(&a.identifier), n.get(&a.value, i32::MIN as i128, i32::MAX as i128)?)) },
        Definition::Type(TypeDef::Struct(_, v)) => for f in v { match f {
            Declaration::FixedArray(_, s, l) => out.push(format!("pub{s}:[i32;{}usize]", n.get(l, 0, usize::MAX as i128)?)),
            Declaration::OpaqueFixedArray(s, l) => out.push(format!("pub{s}:[u8;{}usize]", n.get(l, 0, usize::MAX as i128)?)),
            _ => {}
        } },
        Definition::Type(TypeDef::Union(t, b)) => {
            let mut seen = HashSet::new();
            for s in &b.specs { for v in &s.values {
                let w = n.get(v, 0, u32::MAX as i128)?;
                if !seen.insert(w) { return None }
                let l = match v { Value::Identifier(s) => known(s).to_string(), Value::Constant(_) => format!("Case{w}") };
                if k & 8 != 0 { out.push(if l.is_empty() { format!("=>{}i32", w as u32 as i32) } else { format!("{t}::{l}=>{}i32", w as u32 as i32) }) }
            } }
        }
        _ => {}
    } }
    Some(out)
}
fn numbers(c: &mut Ctx, d: &[Definition], k: usize) {
    let k = k | 4;
    let k = if k & 8 != 0 { k & !16 } else { k | 16 };
    let what = text(d, k);
    let got = run(c, &what, d, k).map(|s| s.split_whitespace().collect::<String>());
    match (expected(d, k), got) {
        (None, Some(g)) => c.fail(&what, "an error: a name that is not defined, leads back to itself, or whose number does not fit", &g),
        (Some(w), None) => c.fail(&what, &w.join(" "), "an error"),
        (Some(w), Some(g)) => for p in w { if !g.contains(&p) { c.fail(&what, &p, &g) } },
        _ => {}
    }
}
pub fn c20(c: &mut Ctx) {
    let konst = |s: &str, v: Value| Definition::Constant(Assign { identifier: s.into(), value: v });
    let lit = |n: u64| Value::Constant(Constant::Decimal(n.to_string()));
    // chains of every length, in both orders, with and without an end, through constants and enumerators
    for n in 1..40usize { for end in 0..4 { for order in 0..2 { for via in 0..2 {
        let last = match end { 0 => lit(7), 1 => id("Nowhere"), 2 => id("N0"), _ => id(&format!("N{}", n - 1)) };
        let mut v: Vec<Assign> = (0..n).map(|i| Assign { identifier: format!("N{i}"), value: if i + 1 < n { id(&format!("N{}", i + 1)) } else { last.clone() } }).collect();
        if order == 1 { v.reverse() }
        let mut d: Vec<Definition> = if via == 0 { v.into_iter().map(Definition::Constant).collect() } else { v.chunks(3).enumerate().map(|(i, x)| Definition::Type(TypeDef::Enum(format!("Ty{i}"), x.to_vec()))).collect() };
        d.push(Definition::Type(TypeDef::Struct("Sz".into(), vec![Declaration::FixedArray(TypeSpecifier::Int(true), "arr".into(), id("N0")), Declaration::OpaqueFixedArray("opq".into(), id(&format!("N{}", n / 2)))])));
        numbers(c, &d, n + end);
    } } } }
    for _ in 0..c.rounds {
        let pool: Vec<String> = if c.r.below(2) == 0 { near(c) } else { POOL.iter().map(|s| s.to_string()).collect() };
        let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
        let m = 1 + c.r.below(pool.len());
        let mut ks: Vec<&str> = pool[..m].to_vec(); let mut es = ks.clone();
        for v in [&mut ks, &mut es] { for i in (1..v.len()).rev() { let j = c.r.below(i + 1); v.swap(i, j) } }
        let (nk, ne) = (c.r.below(m + 1), c.r.below(m + 1));
        ks.truncate(nk); es.truncate(ne);
        let bias = c.r.below(4);
        // in half of the rounds names lead only to later ones, so that most are defined
        let all: Vec<String> = ks.iter().chain(&es).map(|s| s.to_string()).collect();
        let dag = c.r.below(3) > 0;
        let pick = |c: &mut Ctx, at: usize| -> Value {
            if c.r.below(5) < bias + 1 { if dag { let later: Vec<&str> = all[at + 1..].iter().map(|s| s.as_str()).filter(|s| !all[..=at].iter().any(|x| x == s)).collect(); if !later.is_empty() { return id(c.r.one(&later)) } } else { return id(c.r.one(&pool)) } }
            if c.r.below(6) == 0 { num(c) } else { Value::Constant(Constant::Decimal(c.r.below(60000).to_string())) }
        };
        let mut d: Vec<Definition> = vec![];
        for (i, s) in ks.iter().enumerate() { let v = pick(c, i); d.push(konst(s, v)) }
        let mut e: Vec<Assign> = vec![];
        for (i, s) in es.iter().enumerate() { let v = pick(c, ks.len() + i); e.push(Assign { identifier: s.to_string(), value: v }) }
        let mut t = 0;
        while !e.is_empty() { let k = 1 + c.r.below(e.len()); d.push(Definition::Type(TypeDef::Enum(format!("Ty{t}"), e.drain(..k).collect()))); t += 1 }
        for i in 0..c.r.below(3) { if all.is_empty() { break } let (x, y) = (c.r.one(&all), c.r.one(&all)); d.push(Definition::Type(TypeDef::Struct(format!("Sz{i}"), vec![Declaration::FixedArray(TypeSpecifier::Int(true), "arr".into(), id(&x)), Declaration::OpaqueFixedArray("opq".into(), id(&y))]))) }
        if !all.is_empty() && c.r.below(2) == 0 {
            let x = c.r.one(&all);
            let mut vs = vec![id(&x)]; if c.r.below(2) == 0 { vs.push(Value::Constant(Constant::Decimal("60001".into()))) }
            d.push(Definition::Type(TypeDef::Union("Un".into(), UnionBody { cond: Declaration::Variable(TypeSpecifier::Int(true), "k".into()), specs: vec![CaseSpec { values: vs, declaration: Declaration::Void }], default: None })));
        }
        for i in (1..d.len()).rev() { if c.r.below(2) == 0 { let j = c.r.below(i + 1); d.swap(i, j) } }
        let k = c.r.below(32);
        numbers(c, &d, k);
    }
}

// ------------------------------------------------------------------------------------------- C24
const HARD: &[&str] = &["_", "__", "_1", "__0_", "a", "A", "b", "self", "Self", "SELF", "s_elf", "sel_f", "crate", "super", "Crate", "type", "TYPE", "fn", "r", "gen", "r_", "TRUE", "FALSE", "u8", "String", "Vec", "Default", "i32", "x9", "d_9", "aB_cD", "_a", "a_", "_A_", "try", "macro", "dyn", "true", "false", "Box", "c2", "async", "CRATE", "Super_"];
struct Gen<'a> { c: &'a mut Ctx, pool: Vec<String> }
impl Gen<'_> {
    fn name(&mut self) -> String { if self.c.r.below(9) == 0 { self.c.ast().name() } else { let k = self.c.r.below(self.pool.len()); self.pool[k].clone() } }
    fn value(&mut self) -> Value { if self.c.r.below(2) == 0 { id(&self.name()) } else if self.c.r.below(4) == 0 { num(self.c) } else { Value::Constant(Constant::Decimal(self.c.r.below(9).to_string())) } }
    fn opt(&mut self) -> Option<Value> { if self.c.r.below(2) == 0 { None } else { Some(self.value()) } }
    fn ty(&mut self) -> TypeSpecifier {
        use TypeSpecifier::*;
        let b = self.c.r.below(2) == 0;
        match self.c.r.below(15) { 0 => Int(b), 1 => Hyper(b), 2 => Float, 3 => Double, 4 => Bool, 5 => Char(b), 6 => Short(b), 7 if self.c.r.below(6) == 0 => { self.c.ast().ty(2) } 7 if self.c.r.below(6) == 0 => Quadruple, _ => Identifier(self.name()) }
    }
    fn decl(&mut self) -> Declaration {
        use Declaration::*;
        match self.c.r.below(16) {
            0..=3 => Variable(self.ty(), self.name()), 4 | 5 => FixedArray(self.ty(), self.name(), self.value()), 6 | 7 => { let o = self.opt(); VariableArray(self.ty(), self.name(), o) }
            8 => OpaqueFixedArray(self.name(), self.value()), 9 => { let o = self.opt(); OpaqueVariableArray(self.name(), o) } 10 => { let o = self.opt(); String(self.name(), o) } 11 | 12 => OptionVariable(self.ty(), self.name()), 13 => Void, _ => Variable(TypeSpecifier::Identifier(self.name()), self.name()),
        }
    }
    fn body(&mut self) -> UnionBody {
        let cond = match self.c.r.below(7) { 0 => self.decl(), 1 | 2 => Declaration::Variable(TypeSpecifier::Bool, self.name()), 3 => Declaration::Variable(TypeSpecifier::Int(self.c.r.below(2) == 0), self.name()), _ => Declaration::Variable(TypeSpecifier::Identifier(self.name()), self.name()) };
        let specs = (0..1 + self.c.r.below(3)).map(|_| CaseSpec { values: (0..1 + self.c.r.below(2)).map(|_| match self.c.r.below(4) { 0 => id("TRUE"), 1 => id("FALSE"), _ => self.value() }).collect(), declaration: self.decl() }).collect();
        UnionBody { cond, specs, default: if self.c.r.below(3) == 0 { Some(self.decl()) } else { None } }
    }
    fn definition(&mut self) -> Definition {
        match self.c.r.below(10) {
            0 | 1 => Definition::Constant(Assign { identifier: self.name(), value: self.value() }), 2..=4 => Definition::Type(TypeDef::Declaration(self.decl())), 5 | 6 => { let v = (0..1 + self.c.r.below(4)).map(|_| Assign { identifier: self.name(), value: self.value() }).collect(); Definition::Type(TypeDef::Enum(self.name(), v)) }
            7 => { let v = (0..1 + self.c.r.below(4)).map(|_| self.decl()).collect(); Definition::Type(TypeDef::Struct(self.name(), v)) } 8 => { let b = self.body(); Definition::Type(TypeDef::Union(self.name(), b)) } _ => self.c.ast().definition(),
        }
    }
}
fn legal(s: &str) -> bool { !crate::reference::RESERVED.contains(&s) }
fn all_options(c: &mut Ctx, d: &[Definition]) { for k in 0..32 { let what = text(d, k); run(c, &what, d, k); } }
pub fn c24(c: &mut Ctx) {
    let v = |t: &str, n: &str| Declaration::Variable(TypeSpecifier::Identifier(t.into()), n.into());
    let lit = |s: &str| Value::Constant(Constant::Decimal(s.into()));
    // every hard name in every place
    for n in HARD.iter().filter(|s| legal(s)) {
        let d = vec![Definition::Constant(Assign { identifier: n.to_string(), value: lit("3") }),
            Definition::Type(TypeDef::Declaration(Declaration::VariableArray(TypeSpecifier::Int(true), n.to_string(), Some(id(n))))),
            Definition::Type(TypeDef::Enum(n.to_string(), vec![Assign { identifier: n.to_string(), value: lit("1") }])),
            Definition::Type(TypeDef::Struct(n.to_string(), vec![Declaration::FixedArray(TypeSpecifier::Identifier(n.to_string()), n.to_string(), id(n)), Declaration::OptionVariable(TypeSpecifier::Identifier(n.to_string()), n.to_string())])),
            Definition::Type(TypeDef::Union(n.to_string(), UnionBody { cond: v(n, n), specs: vec![CaseSpec { values: vec![id(n)], declaration: v(n, n) }], default: Some(v(n, n)) }))];
        all_options(c, &d);
        for x in d { all_options(c, &[x]) }
    }
    // typedefs that lead to one another, of every shape and length
    for n in 1..12usize { for end in 0..4 { for shape in 0..5 {
        let mk = |i: usize, to: String| { let t = TypeSpecifier::Identifier(to); let me = format!("t{i}"); match shape { 0 => Declaration::Variable(t, me), 1 => Declaration::FixedArray(t, me, lit("2")), 2 => Declaration::VariableArray(t, me, None), 3 => Declaration::OptionVariable(t, me), _ => match i % 4 { 0 => Declaration::Variable(t, me), 1 => Declaration::FixedArray(t, me, lit("2")), 2 => Declaration::VariableArray(t, me, None), _ => Declaration::OptionVariable(t, me) } } };
        let mut d: Vec<Definition> = (0..n).map(|i| mk(i, if i + 1 < n { format!("t{}", i + 1) } else { match end { 0 => "t0".to_string(), 1 => format!("t{}", n / 2), 2 => "nowhere".into(), _ => "st".into() } })).map(|x| Definition::Type(TypeDef::Declaration(x))).collect();
        if n % 2 == 0 { d.reverse() }
        d.push(Definition::Type(TypeDef::Struct("st".into(), vec![v("t0", "a"), v("st", "b")])));
        d.push(Definition::Type(TypeDef::Union("un".into(), UnionBody { cond: v("t0", "k"), specs: vec![CaseSpec { values: vec![lit("1")], declaration: v("t0", "x") }], default: None })));
        all_options(c, &d);
    } } }
    // numbers at the limits
    for a in ["0", "-1", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967296", "65535", "65536", "65537", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456"] { for b in ["0", "-1", "1", "2147483647", "-2147483648", "4294967295", "65536", "2147418113"] {
        let e = |s: &str, n: &str| Assign { identifier: s.into(), value: lit(n) };
        let mut d = vec![Definition::Type(TypeDef::Enum("e".into(), vec![e("A", a), e("B", b)])), Definition::Constant(e("K", a)),
            Definition::Type(TypeDef::Union("u".into(), UnionBody { cond: Declaration::Variable(TypeSpecifier::Int(true), "k".into()), specs: vec![CaseSpec { values: vec![lit(a), lit(b)], declaration: Declaration::OpaqueFixedArray("o".into(), lit(a)) }], default: None }))];
        while let Some(x) = d.pop() { for k in 0..32 { if k % 2 == 0 && a.len() > 3 { continue } let one = [x.clone()]; let what = text(&one, k); run(c, &what, &one, k); } }
    } }
    for _ in 0..c.rounds {
        let n = 1 + c.r.below(7);
        let mut g = Gen { c, pool: vec![] };
        while g.pool.len() < n { let s = g.c.r.one(HARD); if legal(s) { g.pool.push(s.to_string()) } }
        let m = 1 + g.c.r.below(8);
        let d: Vec<Definition> = (0..m).map(|_| g.definition()).collect();
        for _ in 0..3 { let k = c.r.below(32); let what = text(&d, k); run(c, &what, &d, k); }
    }
}

// ------------------------------------------------------------------------------------------- C25
/// b is a with underscores put in
fn spread(a: &str, b: &str) -> bool { let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect()); let mut i = 0; for x in b { if i < a.len() && a[i] == x && x != '_' { i += 1 } else if i < a.len() && x == '_' && a[i] == '_' { i += 1 } else if x != '_' { return false } } i == a.len() }
fn names(c: &mut Ctx, n: &str) {
    let d = vec![Definition::Type(TypeDef::Struct(n.to_string(), vec![Declaration::Variable(TypeSpecifier::Int(true), n.to_string())]))];
    let what = format!("the names made from {n:?}");
    let Some(s) = run(c, &what, &d, 1) else { c.fail(&what, "a struct", "an error") };
    let grab = |s: &str, a: &str, b: &str| -> Option<String> { let k = s.find(a)? + a.len(); let e = s[k..].find(b)?; Some(s[k..k + e].trim().to_string()) };
    let (Some(t), Some(f)) = (grab(&s, "pub struct ", "{"), grab(&s, "{ pub ", ":")) else { c.fail(&what, "a struct with a member", &s) };
    let letters: String = n.chars().filter(|x| *x != '_').collect();
    // names that leave nothing a type name can start with, or a keyword
    let odd = t == format!("_{n}") && (!letters.starts_with(|x: char| x.is_ascii_alphabetic()) || letters.eq_ignore_ascii_case("self"));
    if !odd && !spread(&t.to_ascii_lowercase(), &n.to_ascii_lowercase()) { c.fail(&what, "a type name with the letters and digits of the name in order and no further underscores", &t) }
    if !odd && !n.contains('_') && t[1..] != n[1..] { c.fail(&what, "a type name that keeps all but the first letter", &t) }
    let g = f.trim_start_matches("r#");
    if g.chars().any(|x| x.is_uppercase()) || !spread(&n.to_ascii_lowercase(), g) { c.fail(&what, "a member name in lower case with the letters and digits of the name in order and all its underscores", &f) }
    // the same name elsewhere
    let k = c.r.below(32);
    let d = vec![Definition::Type(TypeDef::Enum("e".into(), vec![Assign { identifier: n.to_string(), value: Value::Constant(Constant::Decimal("0".into())) }])),
        Definition::Type(TypeDef::Struct("other".into(), vec![Declaration::Variable(TypeSpecifier::Int(true), "first".into()), Declaration::Variable(TypeSpecifier::Hyper(true), n.to_string())])),
        Definition::Type(TypeDef::Union(n.to_string(), UnionBody { cond: Declaration::Variable(TypeSpecifier::Int(true), "k".into()), specs: vec![CaseSpec { values: vec![id(n)], declaration: Declaration::Void }], default: None }))];
    let what = format!("the names made from {n:?} in another place, with {}", opts(k));
    let Some(s) = run(c, &what, &d, k) else { c.fail(&what, "code", "an error") };
    let s: String = s.split_whitespace().collect::<Vec<_>>().join(" ");
    let v = grab(&s, "pub enum E {", "=");
    let u = grab(s.split("pub struct Other").nth(1).unwrap_or(""), "pub enum ", "{");
    let m = grab(s.split("pub struct Other").nth(1).unwrap_or(""), "i32 , pub ", ":");
    if v.as_deref() != Some(&t) || u.as_deref() != Some(&t) { c.fail(&what, &t, &format!("{v:?} {u:?} in {s}")) }
    if m.as_deref() != Some(&f) { c.fail(&what, &f, &format!("{m:?} in {s}")) }
}
pub fn c25(c: &mut Ctx) {
    for n in HARD { if legal(n) { names(c, n) } }
    const SET: &[u8] = b"abzABZ09_";
    // all short names
    for len in 1..=4usize { for mut k in 0..SET.len().pow(len as u32) {
        let mut s = String::new();
        for _ in 0..len { s.push(SET[k % SET.len()] as char); k /= SET.len() }
        if !s.starts_with(|x: char| x.is_ascii_digit()) && legal(&s) { names(c, &s) }
    } }
    for w in crate::ast::WORDS { for p in ["", "_", "my", "X"] { for q in ["", "_", "T", "_t", "9"] { let s = format!("{p}{w}{q}"); if legal(&s) { names(c, &s); let u = s.to_uppercase(); if legal(&u) { names(c, &u) } } } } }
    for _ in 0..c.rounds {
        let n = 1 + c.r.below(24); let mut s = String::new();
        let mode = c.r.below(4);
        for k in 0..n { let x = match mode { 0 => c.r.one(b"abcdefgxyz_"), 1 => c.r.one(b"ABCXYZ_09"), 2 => c.r.one(b"aAbBcC19_"), _ => c.r.one(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789______") } as char; if k == 0 && x.is_ascii_digit() { s.push('q') } else { s.push(x) } }
        if legal(&s) { names(c, &s) }
    }
}
