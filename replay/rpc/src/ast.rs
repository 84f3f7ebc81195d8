//! Random interface definitions, and their texts in random layouts.
use crate::drive::*;
use crate::reference::RESERVED;
use rpcgen::parser::*;
pub const WORDS: &[&str] = &["bool", "case", "const", "default", "double", "quadruple", "enum", "float", "hyper", "int", "opaque", "string", "struct", "switch", "typedef", "union", "unsigned", "void", "program", "version", "char", "short"];
pub const FRAGMENTS: &[&str] = &[
    "", " ", "/**/", "/* a */ ", "%#include <a>\n", "% x\r\n% y\n", "const A = 1;", "const A=0x1F;const B=A;", "typedef int a;", "typedef unsigned hyper b[4];", "typedef opaque c<>;", "typedef string d<N>;",
    "enum e { A = 1, B = 2, C = A };", "struct s { int a; unsigned b; hyper c<3>; opaque d[4]; string e<>; foo *f; void; };", "union u switch (int k) { case 1: case 2: int a; case 3: void; default: opaque z<9>; };",
    "union u switch (e k) { case A: struct { int x; } y; };", "struct t { enum { P = 1 } p; union switch (bool b) { case TRUE: int x; } q; struct { int z; } r[2]; };",
    "program P { version V { void NULL(void) = 0; int m(foo) = 1; } = 1; version W { unsigned hyper n(struct { int a; }) = 0x2; } = 2; } = 99;",
];
pub struct Ast<'a>(pub &'a mut R);
impl Ast<'_> {
    pub fn name(&mut self) -> String {
        loop {
            let s = match self.0.below(5) {
                0 => { let w = self.0.one(WORDS); let s = self.0.one(&["_t", "s", "_", "9", "X", "Int"]); format!("{w}{s}") }
                1 => { let w = self.0.one(WORDS); let p = self.0.one(&["_", "my", "x_", "A"]); format!("{p}{w}") }
                2 => self.0.one(&["a", "B", "_", "__", "_1", "TRUE", "FALSE", "u8", "String", "type", "self", "fn", "Vec"]).to_string(),
                _ => { let mut s = String::new(); let n = 1 + self.0.below(9); for k in 0..n { let c = self.0.one(b"abcxyzABZ_09q"); let c = c as char; if k == 0 && c.is_ascii_digit() { s.push('d') } else { s.push(c) } } s }
            };
            if !RESERVED.contains(&s.as_str()) { return s }
        }
    }
    pub fn number(&mut self) -> Constant {
        let n = match self.0.below(4) { 0 => self.0.below(4) as u64, 1 => self.0.below(300) as u64, 2 => self.0.n() >> self.0.below(64), _ => self.0.one(&[0, 1, 7, 8, 9, 10, 15, 16, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, u64::MAX]) };
        match self.0.below(6) {
            0 => Constant::Hex(format!("{n:x}")), 1 => Constant::Hex(format!("{n:X}")), 2 => Constant::Octal(format!("{n:o}")), 3 if n > 0 => Constant::Decimal(format!("-{n}")), _ => Constant::Decimal(format!("{n}")),
        }
    }
    pub fn value(&mut self) -> Value { if self.0.below(3) == 0 { Value::Identifier(self.name()) } else { Value::Constant(self.number()) } }
    pub fn assign(&mut self) -> Assign { Assign { identifier: self.name(), value: self.value() } }
    fn some<T>(&mut self, max: usize, f: fn(&mut Self, usize) -> T, d: usize) -> Vec<T> { let n = 1 + self.0.below(max); (0..n).map(|_| f(self, d)).collect() }
    pub fn ty(&mut self, d: usize) -> TypeSpecifier {
        use TypeSpecifier::*;
        let b = self.0.below(2) == 0;
        match self.0.below(if d == 0 { 11 } else { 14 }) {
            0 | 1 => Int(b), 2 => Hyper(b), 3 => Float, 4 => Double, 5 => Quadruple, 6 => Bool, 7 => Char(b), 8 => Short(b), 9 | 10 => Identifier(self.tyname()),
            11 => Enum(Box::new(EnumTypeSpec { body: self.some(3, |s, _| s.assign(), 0) })), 12 => Struct(Box::new(StructTypeSpec { body: self.some(3, Self::decl, d - 1) })), _ => Union(Box::new(UnionTypeSpec { body: self.body(d - 1) })),
        }
    }
    /// a name that stands for a type: char and short are types themselves
    fn tyname(&mut self) -> String { loop { let s = self.name(); if s != "char" && s != "short" { return s } } }
    pub fn decl(&mut self, d: usize) -> Declaration {
        use Declaration::*;
        match self.0.below(12) {
            0 | 1 | 2 => Variable(self.ty(d), self.name()), 3 | 4 => FixedArray(self.ty(d), self.name(), self.value()), 5 | 6 => { let v = if self.0.below(2) == 0 { None } else { Some(self.value()) }; VariableArray(self.ty(d), self.name(), v) }
            7 => OpaqueFixedArray(self.name(), self.value()), 8 => { let v = if self.0.below(2) == 0 { None } else { Some(self.value()) }; OpaqueVariableArray(self.name(), v) }
            9 => { let v = if self.0.below(2) == 0 { None } else { Some(self.value()) }; String(self.name(), v) } 10 => OptionVariable(self.ty(d), self.name()), _ => Void,
        }
    }
    fn case(&mut self, d: usize) -> CaseSpec { CaseSpec { values: self.some(3, |s, _| s.value(), 0), declaration: self.decl(d) } }
    pub fn body(&mut self, d: usize) -> UnionBody { UnionBody { cond: self.decl(d), specs: self.some(4, Self::case, d), default: if self.0.below(2) == 0 { Some(self.decl(d)) } else { None } } }
    fn rty(&mut self) -> TypeSpecifier { if self.0.below(4) == 0 { TypeSpecifier::Void } else { self.ty(1) } }
    fn procedure(&mut self, _: usize) -> Procedure { Procedure { res_ty: self.rty(), method: self.name(), req_ty: self.rty(), value: self.value() } }
    fn version(&mut self, _: usize) -> Version { Version { name: self.name(), procedures: self.some(3, Self::procedure, 0), value: self.value() } }
    pub fn definition(&mut self) -> Definition {
        match self.0.below(9) {
            0 => Definition::Constant(self.assign()), 1 | 2 => Definition::Type(TypeDef::Declaration(self.decl(1))), 3 => Definition::Type(TypeDef::Enum(self.name(), self.some(5, |s, _| s.assign(), 0))), 4 | 5 => Definition::Type(TypeDef::Struct(self.name(), self.some(5, Self::decl, 2))),
            6 => Definition::Type(TypeDef::Union(self.name(), self.body(2))), 7 => Definition::Program(Program { name: self.name(), versions: self.some(3, Self::version, 0), value: self.value() }), _ => Definition::LineComment,
        }
    }
    pub fn spec(&mut self, n: usize) -> Vec<Definition> { (0..n).map(|_| self.definition()).collect() }
}
/// writes definitions; r: in a random layout, else in a plain one
struct Out<'a> { s: String, r: Option<&'a mut R> }
impl Out<'_> {
    fn blank(&mut self) { let t = match &mut self.r { Some(r) => r.one(&[" ", " ", "\t", "\n", "\r\n", "  ", " \n\t "]), None => " " }; self.s.push_str(t) }
    fn maybe(&mut self) { if let Some(r) = &mut self.r { if r.below(3) == 0 { self.blank() } } }
    fn gap(&mut self) {
        let Some(r) = &mut self.r else { self.s.push(' '); return };
        match r.below(8) { 0 | 1 | 2 | 3 => {} 4 | 5 => self.blank(), _ => {
            let n = 1 + r.below(3);
            for _ in 0..n { self.maybe(); let t = self.r.as_mut().unwrap().one(&["/**/", "/* c */", "/* a; } b */", "/***/", "/* / * */", "/*\n*/", "/*/ */", "/* é */", "/* const X = 1; */", "/* ** */", "/*%*/"]); self.s.push_str(t); self.maybe() } } }
    }
    fn p(&mut self, t: &str) { self.s.push_str(t) }
    fn sign(&mut self, t: &str) { self.gap(); self.p(t); self.gap() }
    fn key(&mut self, t: &str) { self.p(t); self.blank() }
    fn value(&mut self, v: &Value) { match v { Value::Identifier(n) => self.p(n), Value::Constant(Constant::Decimal(s)) => self.p(s), Value::Constant(Constant::Hex(s)) => { self.p("0x"); self.p(s) } Value::Constant(Constant::Octal(s)) => { self.p("0"); self.p(s) } } }
    fn assign(&mut self, a: &Assign) { self.p(&a.identifier); self.sign("="); self.value(&a.value) }
    fn list(&mut self, b: &[Assign]) { self.p("{"); self.gap(); for (k, a) in b.iter().enumerate() { if k > 0 { self.sign(",") } self.assign(a) } self.gap(); self.p("}") }
    fn un(&mut self, s: bool, t: &str) { if !s { self.key("unsigned") } self.p(t) }
    fn ty(&mut self, t: &TypeSpecifier) {
        use TypeSpecifier::*;
        match t {
            Int(false) if self.r.as_mut().is_some_and(|r| r.below(2) == 0) => self.p("unsigned"),
            Int(s) => self.un(*s, "int"), Hyper(s) => self.un(*s, "hyper"), Char(s) => self.un(*s, "char"), Short(s) => self.un(*s, "short"), Float => self.p("float"), Double => self.p("double"), Quadruple => self.p("quadruple"), Bool => self.p("bool"), Void => self.p("void"),
            Identifier(n) => self.p(n), Enum(e) => { self.key("enum"); self.list(&e.body) } Struct(e) => { self.key("struct"); self.members(&e.body) } Union(e) => { self.key("union"); self.arms(&e.body) }
        }
    }
    fn fixed(&mut self, v: &Value) { self.p("["); self.value(v); self.p("]") }
    fn var(&mut self, v: &Option<Value>) { self.p("<"); if let Some(v) = v { self.value(v) } self.p(">") }
    fn decl(&mut self, d: &Declaration) {
        use Declaration::*;
        match d {
            Variable(t, n) => { self.ty(t); self.blank(); self.p(n) } FixedArray(t, n, v) => { self.ty(t); self.blank(); self.p(n); self.fixed(v) } VariableArray(t, n, v) => { self.ty(t); self.blank(); self.p(n); self.var(v) }
            OpaqueFixedArray(n, v) => { self.key("opaque"); self.p(n); self.fixed(v) } OpaqueVariableArray(n, v) => { self.key("opaque"); self.p(n); self.var(v) } String(n, v) => { self.key("string"); self.p(n); self.var(v) }
            OptionVariable(t, n) => { self.ty(t); self.maybe(); self.p("*"); self.maybe(); self.p(n) } Void => self.p("void"),
        }
    }
    fn members(&mut self, b: &[Declaration]) { self.p("{"); self.gap(); for d in b { self.decl(d); self.sign(";") } self.p("}") }
    fn arms(&mut self, b: &UnionBody) {
        self.p("switch"); self.sign("("); self.decl(&b.cond); self.sign(")"); self.p("{"); self.gap();
        for c in &b.specs {
            for v in &c.values { self.gap(); self.p("case"); let n = self.s.len(); self.gap(); if self.s.len() == n { self.blank() } self.value(v); self.sign(":") }
            self.decl(&c.declaration); self.gap(); self.p(";"); self.gap();
        }
        if let Some(d) = &b.default { self.p("default"); self.sign(":"); self.decl(d); self.gap(); self.p(";"); self.gap() }
        self.p("}")
    }
    fn num(&mut self, v: &Value) { self.p("="); self.gap(); self.value(v); self.gap(); self.p(";") }
    fn definition(&mut self, d: &Definition) {
        match d {
            Definition::Constant(a) => { self.key("const"); self.assign(a); self.gap(); self.p(";") }
            Definition::LineComment => { let t = match &mut self.r { Some(r) => r.one(&["%\n", "% x\r\n", "%const A = 1;\n", "%%/*\n", "% é \n"]), None => "% c\n" }; self.p(t) }
            Definition::Type(TypeDef::Declaration(d)) => { self.key("typedef"); self.decl(d); self.gap(); self.p(";") }
            Definition::Type(TypeDef::Enum(n, b)) => { self.key("enum"); self.p(n); self.gap(); self.list(b); self.gap(); self.p(";") }
            Definition::Type(TypeDef::Struct(n, b)) => { self.key("struct"); self.p(n); self.gap(); self.members(b); self.gap(); self.p(";") }
            Definition::Type(TypeDef::Union(n, b)) => { self.key("union"); self.p(n); let k = self.s.len(); self.gap(); if self.s.len() == k { self.blank() } self.arms(b); self.gap(); self.p(";") }
            Definition::Program(p) => {
                self.key("program"); self.p(&p.name); self.sign("{");
                for v in &p.versions {
                    self.key("version"); self.p(&v.name); self.sign("{");
                    for m in &v.procedures { self.ty(&m.res_ty); self.blank(); self.p(&m.method); self.sign("("); self.ty(&m.req_ty); self.sign(")"); self.num(&m.value); self.gap() }
                    self.p("}"); self.gap(); self.num(&v.value); self.gap();
                }
                self.p("}"); self.gap(); self.num(&p.value)
            }
        }
    }
    fn spec(&mut self, d: &[Definition]) { self.gap(); for x in d { self.definition(x); self.gap() } }
}
pub fn plain(d: &[Definition]) -> String { let mut o = Out { s: String::new(), r: None }; o.spec(d); o.s }
impl Ctx {
    pub fn ast(&mut self) -> Ast<'_> { Ast(&mut self.r) }
    pub fn layout(&mut self, d: &[Definition]) -> String { let mut o = Out { s: String::new(), r: Some(&mut self.r) }; o.spec(d); o.s }
}
