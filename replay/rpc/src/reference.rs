//! A second parser of interface definitions, written from the language description and independent of the one under test
//! (characters and an index, no combinators). It stops at the first character that no definition can use.
use rpcgen::parser::*;
pub struct Ref { t: Vec<char>, p: usize }
type O<T> = Option<T>;
pub const RESERVED: &[&str] = &["bool", "case", "const", "default", "double", "quadruple", "enum", "float", "hyper", "int", "opaque", "string", "struct", "switch", "typedef", "union", "unsigned", "void", "program", "version"];
fn word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
pub fn parse(s: &str) -> Option<Vec<Definition>> {
    let mut r = Ref { t: s.chars().collect(), p: 0 };
    let mut v = vec![];
    r.gap();
    while let Some(d) = r.attempt(Ref::definition) { v.push(d); r.gap(); }
    if r.p == r.t.len() { Some(v) } else { None }
}
impl Ref {
    fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> O<T>) -> O<T> { let p = self.p; let r = f(self); if r.is_none() { self.p = p } r }
    fn peek(&self, k: usize) -> char { self.t.get(self.p + k).copied().unwrap_or('\0') }
    fn end(&self) -> bool { self.p >= self.t.len() }
    fn lit(&mut self, s: &str) -> O<()> { for (k, c) in s.chars().enumerate() { if self.p + k >= self.t.len() || self.t[self.p + k] != c { return None } } self.p += s.len(); Some(()) }
    fn blanks(&mut self) -> bool { let p = self.p; while !self.end() && matches!(self.peek(0), ' ' | '\t' | '\r' | '\n') { self.p += 1 } self.p > p }
    /// white space and comments
    fn gap(&mut self) {
        self.blanks();
        while !self.end() && self.peek(0) == '/' && self.peek(1) == '*' {
            let mut q = self.p + 2;
            loop { if q + 1 >= self.t.len() { return } if self.t[q] == '*' && self.t[q + 1] == '/' { break } q += 1 }
            self.p = q + 2; self.blanks();
        }
    }
    fn sign(&mut self, s: &str) -> O<()> { self.gap(); self.lit(s)?; self.gap(); Some(()) }
    fn finish(&mut self, s: &str) -> O<()> { self.gap(); self.lit(s) }
    fn key(&mut self, s: &str) -> O<()> { self.lit(s)?; if self.blanks() { Some(()) } else { None } }
    fn whole(&mut self, s: &str) -> O<()> { let p = self.p; self.lit(s)?; if !self.end() && word(self.peek(0)) { self.p = p; None } else { Some(()) } }
    fn name(&mut self) -> O<String> {
        if self.end() || !word(self.peek(0)) || self.peek(0).is_ascii_digit() { return None }
        let p = self.p; while !self.end() && word(self.peek(0)) { self.p += 1 }
        let s: String = self.t[p..self.p].iter().collect();
        if RESERVED.contains(&s.as_str()) { self.p = p; None } else { Some(s) }
    }
    fn digits(&mut self, ok: fn(char) -> bool) -> String { let p = self.p; while !self.end() && ok(self.peek(0)) { self.p += 1 } self.t[p..self.p].iter().collect() }
    fn number(&mut self) -> O<Constant> {
        let p = self.p; let neg = self.peek(0) == '-'; let k = neg as usize;
        if ('1'..='9').contains(&self.peek(k)) { self.p += k; let d = self.digits(|c| c.is_ascii_digit()); return Some(Constant::Decimal(if neg { format!("-{d}") } else { d })) }
        if neg || self.peek(0) != '0' { return None }
        if self.peek(1) == 'x' { self.p += 2; let d = self.digits(|c| c.is_ascii_hexdigit()); if !d.is_empty() { return Some(Constant::Hex(d)) } self.p = p; }
        self.p += 1;
        let d = self.digits(|c| ('0'..='7').contains(&c));
        if d.is_empty() { Some(Constant::Decimal("0".into())) } else { Some(Constant::Octal(d)) }
    }
    fn value(&mut self) -> O<Value> { if let Some(c) = self.attempt(Ref::number) { return Some(Value::Constant(c)) } self.name().map(Value::Identifier) }
    fn assign(&mut self) -> O<Assign> { let identifier = self.name()?; self.sign("=")?; let value = self.value()?; Some(Assign { identifier, value }) }
    fn list(&mut self) -> O<Vec<Assign>> {
        self.lit("{")?; self.gap(); let mut v = vec![self.assign()?];
        while let Some(a) = self.attempt(|s| { s.sign(",")?; s.assign() }) { v.push(a) }
        self.finish("}")?; Some(v)
    }
    fn base(&mut self) -> O<TypeSpecifier> {
        use TypeSpecifier::*;
        for (w, t) in [("int", Int(false)), ("hyper", Hyper(false)), ("char", Char(false)), ("short", Short(false))] { if self.attempt(|s| { s.key("unsigned")?; s.whole(w) }).is_some() { return Some(t) } }
        for (w, t) in [("int", Int(true)), ("hyper", Hyper(true)), ("char", Char(true)), ("short", Short(true)), ("unsigned", Int(false)), ("float", Float), ("double", Double), ("quadruple", Quadruple), ("bool", Bool)] { if self.whole(w).is_some() { return Some(t) } }
        if let Some(b) = self.attempt(|s| { s.key("enum")?; s.list() }) { return Some(Enum(Box::new(EnumTypeSpec { body: b }))) }
        if let Some(b) = self.attempt(|s| { s.key("struct")?; s.members() }) { return Some(Struct(Box::new(StructTypeSpec { body: b }))) }
        if let Some(b) = self.attempt(|s| { s.key("union")?; s.arms() }) { return Some(Union(Box::new(UnionTypeSpec { body: b }))) }
        self.name().map(Identifier)
    }
    fn fixed(&mut self) -> O<Value> { self.attempt(|s| { s.lit("[")?; let v = s.value()?; s.lit("]")?; Some(v) }) }
    fn variable(&mut self) -> O<Option<Value>> { self.attempt(|s| { s.lit("<")?; let v = s.attempt(Ref::value); s.lit(">")?; Some(v) }) }
    fn declaration(&mut self) -> O<Declaration> {
        if let Some(d) = self.attempt(|s| { s.key("opaque")?; let n = s.name()?; if let Some(v) = s.fixed() { Some(Declaration::OpaqueFixedArray(n, v)) } else { let v = s.variable()?; Some(Declaration::OpaqueVariableArray(n, v)) } }) { return Some(d) }
        if let Some(d) = self.attempt(|s| { s.key("string")?; let n = s.name()?; let v = s.variable()?; Some(Declaration::String(n, v)) }) { return Some(d) }
        let d = self.attempt(|s| {
            let t = s.base()?;
            if let Some(n) = s.attempt(|s| { s.blanks(); s.lit("*")?; s.blanks(); s.name() }) { return Some(Declaration::OptionVariable(t, n)) }
            if !s.blanks() { return None }
            let n = s.name()?;
            if let Some(v) = s.fixed() { return Some(Declaration::FixedArray(t, n, v)) }
            if let Some(v) = s.variable() { return Some(Declaration::VariableArray(t, n, v)) }
            Some(Declaration::Variable(t, n))
        });
        if d.is_some() { return d }
        self.lit("void")?; Some(Declaration::Void)
    }
    fn members(&mut self) -> O<Vec<Declaration>> {
        self.lit("{")?; self.gap(); let mut v = vec![];
        while let Some(d) = self.attempt(|s| { let d = s.declaration()?; s.sign(";")?; Some(d) }) { v.push(d) }
        if v.is_empty() { return None }
        self.finish("}")?; Some(v)
    }
    fn arm(&mut self) -> O<CaseSpec> {
        let mut values = vec![];
        while let Some(v) = self.attempt(|s| { s.sign("case")?; let v = s.value()?; s.sign(":")?; Some(v) }) { values.push(v) }
        if values.is_empty() { return None }
        let declaration = self.declaration()?; self.finish(";")?; Some(CaseSpec { values, declaration })
    }
    fn arms(&mut self) -> O<UnionBody> {
        self.lit("switch")?; self.sign("(")?; let cond = self.declaration()?; self.sign(")")?; self.lit("{")?; self.gap();
        let mut specs = vec![];
        while let Some(c) = self.attempt(Ref::arm) { specs.push(c); self.gap() }
        if specs.is_empty() { return None }
        let default = self.attempt(|s| { s.sign("default")?; s.lit(":")?; s.gap(); let d = s.declaration()?; s.finish(";")?; Some(d) });
        self.finish("}")?; Some(UnionBody { cond, specs, default })
    }
    fn assigned(&mut self) -> O<Value> { self.lit("=")?; self.gap(); let v = self.value()?; self.finish(";")?; Some(v) }
    fn signature(&mut self) -> O<TypeSpecifier> { if let Some(t) = self.attempt(Ref::base) { return Some(t) } self.lit("void")?; Some(TypeSpecifier::Void) }
    fn procedure(&mut self) -> O<Procedure> {
        let res_ty = self.signature()?; if !self.blanks() { return None }
        let method = self.name()?; self.sign("(")?; let req_ty = self.signature()?; self.sign(")")?; let value = self.assigned()?; Some(Procedure { res_ty, method, req_ty, value })
    }
    fn several<T>(&mut self, f: fn(&mut Self) -> O<T>) -> O<Vec<T>> {
        self.sign("{")?; let mut v = vec![];
        while let Some(x) = self.attempt(f) { v.push(x); self.gap() }
        if v.is_empty() { return None }
        self.sign("}")?; Some(v)
    }
    fn version(&mut self) -> O<Version> { self.key("version")?; let name = self.name()?; let procedures = self.several(Ref::procedure)?; let value = self.assigned()?; Some(Version { name, procedures, value }) }
    fn program(&mut self) -> O<Program> { self.key("program")?; let name = self.name()?; let versions = self.several(Ref::version)?; let value = self.assigned()?; Some(Program { name, versions, value }) }
    fn definition(&mut self) -> O<Definition> {
        if let Some(a) = self.attempt(|s| { s.key("const")?; let a = s.assign()?; s.finish(";")?; Some(a) }) { return Some(Definition::Constant(a)) }
        if let Some(d) = self.attempt(|s| { s.key("typedef")?; let d = s.declaration()?; s.finish(";")?; Some(d) }) { return Some(Definition::Type(TypeDef::Declaration(d))) }
        if let Some((n, b)) = self.attempt(|s| { s.key("enum")?; let n = s.name()?; s.gap(); let b = s.list()?; s.finish(";")?; Some((n, b)) }) { return Some(Definition::Type(TypeDef::Enum(n, b))) }
        if let Some((n, b)) = self.attempt(|s| { s.key("struct")?; let n = s.name()?; s.gap(); let b = s.members()?; s.finish(";")?; Some((n, b)) }) { return Some(Definition::Type(TypeDef::Struct(n, b))) }
        if let Some((n, b)) = self.attempt(|s| { s.key("union")?; let n = s.name()?; s.gap(); let b = s.arms()?; s.finish(";")?; Some((n, b)) }) { return Some(Definition::Type(TypeDef::Union(n, b))) }
        if let Some(p) = self.attempt(Ref::program) { return Some(Definition::Program(p)) }
        self.lit("%")?;
        while !self.end() && self.peek(0) != '\n' && self.peek(0) != '\r' { self.p += 1 }
        if self.peek(0) == '\r' && self.peek(1) == '\n' && !self.end() { self.p += 2; return Some(Definition::LineComment) }
        if self.peek(0) == '\n' && !self.end() { self.p += 1; return Some(Definition::LineComment) }
        None
    }
}
