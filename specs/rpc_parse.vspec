@@root
/// the grammar of interface definitions, as functions from a text to what is read first and the rest
pub mod g {
use vstd::prelude::*;
use crate::vx::*;
use crate::nom::*;
use crate::lit::{self, P};
use crate::parser::*;
pub uninterp spec fn bx<T>(t: T) -> Box<T>;
pub broadcast axiom fn ax_bx<T>(t: T) ensures *(#[trigger] bx(t)) == t;
pub open spec fn okrest<T>(r: Result<(&str, T), NomErr>, i: Seq<char>, f: Option<Seq<char>>) -> bool {
    match r { Ok((rest, v)) => f == Some(rest@) && rest@.len() <= i.len(), Err(e) => e is Error && f is None }
}
// ---- words, spaces, comments
pub open spec fn ws0(i: Seq<char>) -> Seq<char> { after(i, 0) }
pub open spec fn ws1(i: Seq<char>) -> Option<Seq<char>> { if run(i, 0) > 0 { Some(after(i, 0)) } else { None } }
pub open spec fn comment(i: Seq<char>) -> Option<Seq<char>> {
    match tg(i, "/*"@) { Some(b) => match from(b, "*/"@) { Some(e) => match tg(e, "*/"@) { Some(r) => Some(ws0(r)), None => None }, None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn comments(i: Seq<char>) -> Seq<char> decreases i.len() {
    match comment(i) { Some(r) => if r.len() < i.len() { comments(r) } else { i }, None => i }
}
/// white space and comments
#[verifier::opaque]
pub open spec fn cm0(i: Seq<char>) -> Seq<char> { comments(ws0(i)) }
/// no letter, digit or underscore comes first
pub open spec fn ends(i: Seq<char>) -> Option<Seq<char>> { if run(i, 6) == 0 { Some(i) } else { None } }
/// the keyword k, as a whole word
pub open spec fn word(i: Seq<char>, k: Seq<char>) -> Option<Seq<char>> { match tg(i, k) { Some(r) => ends(r), None => None } }
/// a keyword and white space
pub open spec fn kw(i: Seq<char>, k: Seq<char>) -> Option<Seq<char>> { match tg(i, k) { Some(r) => ws1(r), None => None } }
/// punctuation, with white space and comments around it, before it, after it
pub open spec fn pun(i: Seq<char>, p: Seq<char>) -> Option<Seq<char>> { match tg(cm0(i), p) { Some(r) => Some(cm0(r)), None => None } }
pub open spec fn close(i: Seq<char>, p: Seq<char>) -> Option<Seq<char>> { tg(cm0(i), p) }
pub open spec fn open(i: Seq<char>, p: Seq<char>) -> Option<Seq<char>> { match tg(i, p) { Some(r) => Some(cm0(r)), None => None } }
#[verifier::opaque]
pub open spec fn reserved(s: Seq<char>) -> bool {
    s == "bool"@ || s == "case"@ || s == "const"@ || s == "default"@ || s == "double"@ || s == "quadruple"@ || s == "enum"@ || s == "float"@ || s == "hyper"@ || s == "int"@ || s == "opaque"@
    || s == "string"@ || s == "struct"@ || s == "switch"@ || s == "typedef"@ || s == "union"@ || s == "unsigned"@ || s == "void"@ || s == "program"@ || s == "version"@
}
/// letters, digits and underscores that do not start with a digit: the longest such text, if it is not a reserved word
#[verifier::opaque]
pub open spec fn ident(i: Seq<char>) -> P<Seq<char>> {
    if run(i, 6) > 0 && run(i, 3) == 0 && !reserved(before(i, after(i, 6))) { Some((before(i, after(i, 6)), after(i, 6))) } else { None }
}
#[verifier::opaque]
pub open spec fn value(i: Seq<char>) -> P<Value> {
    match lit::constant(i) { Some((c, r)) => Some((Value::Constant(c), r)), None => match ident(i) { Some((n, r)) => Some((Value::Identifier(str_of(n)), r)), None => None } }
}
#[verifier::opaque]
pub open spec fn assign(i: Seq<char>) -> P<Assign> {
    match ident(i) { Some((n, r)) => match pun(r, "="@) { Some(r) => match value(r) { Some((v, r)) => Some((Assign { identifier: str_of(n), value: v }, r)), None => None }, None => None }, None => None }
}
// ---- declarations
pub open spec fn brackets(i: Seq<char>) -> P<Value> {
    match tg(i, "["@) { Some(r) => match value(r) { Some((v, r)) => match tg(r, "]"@) { Some(r) => Some((v, r)), None => None }, None => None }, None => None }
}
pub open spec fn angles(i: Seq<char>) -> P<Option<Value>> {
    match tg(i, "<"@) { Some(r) => { let (v, r) = match value(r) { Some((v, r)) => (Some(v), r), None => (None, r) }; match tg(r, ">"@) { Some(r) => Some((v, r)), None => None } }, None => None }
}
pub open spec fn named(i: Seq<char>, k: Seq<char>) -> P<Seq<char>> { match kw(i, k) { Some(r) => ident(r), None => None } }
pub open spec fn opaque_fixed(i: Seq<char>) -> P<Declaration> {
    match named(i, "opaque"@) { Some((n, r)) => match brackets(r) { Some((v, r)) => Some((Declaration::OpaqueFixedArray(str_of(n), v), r)), None => None }, None => None }
}
pub open spec fn opaque_var(i: Seq<char>) -> P<Declaration> {
    match named(i, "opaque"@) { Some((n, r)) => match angles(r) { Some((v, r)) => Some((Declaration::OpaqueVariableArray(str_of(n), v), r)), None => None }, None => None }
}
pub open spec fn string(i: Seq<char>) -> P<Declaration> {
    match named(i, "string"@) { Some((n, r)) => match angles(r) { Some((v, r)) => Some((Declaration::String(str_of(n), v), r)), None => None }, None => None }
}
pub open spec fn spaced(i: Seq<char>) -> P<Seq<char>> { match ws1(i) { Some(r) => ident(r), None => None } }
pub open spec fn starred(i: Seq<char>) -> P<Seq<char>> { match tg(ws0(i), "*"@) { Some(r) => ident(ws0(r)), None => None } }
/// what follows a type
pub open spec fn typed(t: TypeSpecifier, i: Seq<char>) -> P<Declaration> {
    let s = spaced(i);
    if s is Some && brackets(s.unwrap().1) is Some { let b = brackets(s.unwrap().1).unwrap(); Some((Declaration::FixedArray(t, str_of(s.unwrap().0), b.0), b.1)) }
    else if s is Some && angles(s.unwrap().1) is Some { let b = angles(s.unwrap().1).unwrap(); Some((Declaration::VariableArray(t, str_of(s.unwrap().0), b.0), b.1)) }
    else if starred(i) is Some { Some((Declaration::OptionVariable(t, str_of(starred(i).unwrap().0)), starred(i).unwrap().1)) }
    else if s is Some { Some((Declaration::Variable(t, str_of(s.unwrap().0)), s.unwrap().1)) }
    else { None }
}
#[verifier::opaque]
pub open spec fn decl(i: Seq<char>) -> P<Declaration> decreases i.len(), 2int {
    if opaque_fixed(i) is Some { opaque_fixed(i) } else if opaque_var(i) is Some { opaque_var(i) } else if string(i) is Some { string(i) }
    else {
        let t = tspec(i);
        if t is Some && typed(t.unwrap().0, t.unwrap().1) is Some { typed(t.unwrap().0, t.unwrap().1) }
        else { match tg(i, "void"@) { Some(r) => Some((Declaration::Void, r)), None => None } }
    }
}
// ---- types
pub open spec fn uword(i: Seq<char>, k: Seq<char>) -> Option<Seq<char>> { match kw(i, "unsigned"@) { Some(r) => word(r, k), None => None } }
#[verifier::opaque]
pub open spec fn basic(i: Seq<char>) -> P<TypeSpecifier> {
    if let Some(r) = uword(i, "int"@) { Some((TypeSpecifier::Int(false), r)) }
    else if let Some(r) = word(i, "int"@) { Some((TypeSpecifier::Int(true), r)) }
    else if let Some(r) = uword(i, "hyper"@) { Some((TypeSpecifier::Hyper(false), r)) }
    else if let Some(r) = word(i, "hyper"@) { Some((TypeSpecifier::Hyper(true), r)) }
    else if let Some(r) = uword(i, "char"@) { Some((TypeSpecifier::Char(false), r)) }
    else if let Some(r) = word(i, "char"@) { Some((TypeSpecifier::Char(true), r)) }
    else if let Some(r) = uword(i, "short"@) { Some((TypeSpecifier::Short(false), r)) }
    else if let Some(r) = word(i, "short"@) { Some((TypeSpecifier::Short(true), r)) }
    else if let Some(r) = word(i, "unsigned"@) { Some((TypeSpecifier::Int(false), r)) }
    else if let Some(r) = word(i, "float"@) { Some((TypeSpecifier::Float, r)) }
    else if let Some(r) = word(i, "double"@) { Some((TypeSpecifier::Double, r)) }
    else if let Some(r) = word(i, "quadruple"@) { Some((TypeSpecifier::Quadruple, r)) }
    else if let Some(r) = word(i, "bool"@) { Some((TypeSpecifier::Bool, r)) }
    else { None }
}
#[verifier::opaque]
pub open spec fn tspec(i: Seq<char>) -> P<TypeSpecifier> decreases i.len(), 1int {
    if basic(i) is Some { basic(i) }
    else if enum_spec(i) is Some { Some((TypeSpecifier::Enum(bx(enum_spec(i).unwrap().0)), enum_spec(i).unwrap().1)) }
    else if struct_spec(i) is Some { Some((TypeSpecifier::Struct(bx(struct_spec(i).unwrap().0)), struct_spec(i).unwrap().1)) }
    else if union_spec(i) is Some { Some((TypeSpecifier::Union(bx(union_spec(i).unwrap().0)), union_spec(i).unwrap().1)) }
    else { match ident(i) { Some((n, r)) => Some((TypeSpecifier::Identifier(str_of(n)), r)), None => None } }
}
#[verifier::opaque]
pub open spec fn enum_spec(i: Seq<char>) -> P<EnumTypeSpec> {
    match kw(i, "enum"@) { Some(r) => match enum_body(r) { Some((b, r)) => Some((EnumTypeSpec { body: vec_of(b) }, r)), None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn struct_spec(i: Seq<char>) -> P<StructTypeSpec> decreases i.len(), 0int {
    match kw(i, "struct"@) { Some(r) => if r.len() < i.len() { match struct_body(r) { Some((b, r)) => Some((StructTypeSpec { body: vec_of(b) }, r)), None => None } } else { None }, None => None }
}
#[verifier::opaque]
pub open spec fn union_spec(i: Seq<char>) -> P<UnionTypeSpec> decreases i.len(), 0int {
    match kw(i, "union"@) { Some(r) => if r.len() < i.len() { match union_body(r) { Some((b, r)) => Some((UnionTypeSpec { body: b }, r)), None => None } } else { None }, None => None }
}
// ---- bodies
pub open spec fn next_assign(i: Seq<char>) -> P<Assign> { match pun(i, ","@) { Some(r) => assign(r), None => None } }
#[verifier::opaque]
pub open spec fn assigns(acc: Seq<Assign>, i: Seq<char>) -> (Seq<Assign>, Seq<char>) decreases i.len() {
    match next_assign(i) { Some((a, r)) => if r.len() < i.len() { assigns(acc.push(a), r) } else { (acc, i) }, None => (acc, i) }
}
#[verifier::opaque]
pub open spec fn enum_body(i: Seq<char>) -> P<Seq<Assign>> {
    match open(i, "{"@) { Some(r) => match assign(r) { Some((a, r)) => { let (v, r) = assigns(seq![a], r); match close(r, "}"@) { Some(r) => Some((v, r)), None => None } }, None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn member(i: Seq<char>) -> P<Declaration> decreases i.len(), 3int {
    match decl(i) { Some((d, r)) => match pun(r, ";"@) { Some(r) => Some((d, r)), None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn members(acc: Seq<Declaration>, i: Seq<char>) -> (Seq<Declaration>, Seq<char>) decreases i.len(), 4int {
    match member(i) { Some((d, r)) => if r.len() < i.len() { members(acc.push(d), r) } else { (acc, i) }, None => (acc, i) }
}
#[verifier::opaque]
pub open spec fn struct_body(i: Seq<char>) -> P<Seq<Declaration>> decreases i.len(), 0int {
    match open(i, "{"@) {
        Some(r) => if r.len() < i.len() { match member(r) { Some((d, r)) => if r.len() < i.len() { let (v, r) = members(seq![d], r); match close(r, "}"@) { Some(r) => Some((v, r)), None => None } } else { None }, None => None } } else { None },
        None => None,
    }
}
pub open spec fn label(i: Seq<char>) -> P<Value> { match pun(i, "case"@) { Some(r) => match value(r) { Some((v, r)) => match pun(r, ":"@) { Some(r) => Some((v, r)), None => None }, None => None }, None => None } }
#[verifier::opaque]
pub open spec fn labels(acc: Seq<Value>, i: Seq<char>) -> (Seq<Value>, Seq<char>) decreases i.len() {
    match label(i) { Some((v, r)) => if r.len() < i.len() { labels(acc.push(v), r) } else { (acc, i) }, None => (acc, i) }
}
#[verifier::opaque]
pub open spec fn case(i: Seq<char>) -> P<CaseSpec> decreases i.len(), 0int {
    match label(i) {
        Some((v, r)) => {
            let (vs, r) = labels(seq![v], r);
            if r.len() < i.len() { match decl(r) { Some((d, r)) => match close(r, ";"@) { Some(r) => Some((CaseSpec { values: vec_of(vs), declaration: d }, r)), None => None }, None => None } } else { None }
        }
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn cases(acc: Seq<CaseSpec>, i: Seq<char>) -> (Seq<CaseSpec>, Seq<char>) decreases i.len(), 1int {
    match case(i) { Some((c, r)) => if cm0(r).len() < i.len() { cases(acc.push(c), cm0(r)) } else { (acc, i) }, None => (acc, i) }
}
pub open spec fn default_head(i: Seq<char>) -> Option<Seq<char>> { match close(i, "default"@) { Some(r) => pun(r, ":"@), None => None } }
#[verifier::opaque]
pub open spec fn default(i: Seq<char>) -> P<Declaration> decreases i.len(), 0int {
    match default_head(i) { Some(r) => if r.len() < i.len() { match decl(r) { Some((d, r)) => match close(r, ";"@) { Some(r) => Some((d, r)), None => None }, None => None } } else { None }, None => None }
}
pub open spec fn switch_head(i: Seq<char>) -> Option<Seq<char>> { match tg(i, "switch"@) { Some(r) => pun(r, "("@), None => None } }
pub open spec fn switch_open(i: Seq<char>) -> Option<Seq<char>> { match pun(i, ")"@) { Some(r) => open(r, "{"@), None => None } }
pub open spec fn union_tail(c: Declaration, cs: (Seq<CaseSpec>, Seq<char>), d: P<Declaration>) -> P<UnionBody> {
    let (o, r) = match d { Some((d, r)) => (Some(d), r), None => (None, cs.1) };
    match close(r, "}"@) { Some(r) => Some((UnionBody { cond: c, specs: vec_of(cs.0), default: o }, r)), None => None }
}
#[verifier::opaque]
pub open spec fn union_body(i: Seq<char>) -> P<UnionBody> decreases i.len(), 0int {
    match switch_head(i) {
        Some(r) => if r.len() < i.len() { match decl(r) {
            Some((c, r)) => match switch_open(r) {
                Some(r) => if r.len() < i.len() { match case(r) {
                    Some((s, r)) => if cm0(r).len() < i.len() {
                        let cs = cases(seq![s], cm0(r));
                        if cs.1.len() < i.len() { union_tail(c, cs, default(cs.1)) } else { None }
                    } else { None },
                    None => None,
                } } else { None },
                None => None,
            },
            None => None,
        } } else { None },
        None => None,
    }
}
// ---- definitions
#[verifier::opaque]
pub open spec fn constant_def(i: Seq<char>) -> P<Assign> {
    match kw(i, "const"@) { Some(r) => match assign(r) { Some((a, r)) => match close(r, ";"@) { Some(r) => Some((a, r)), None => None }, None => None }, None => None }
}
pub open spec fn typedef_def(i: Seq<char>) -> P<TypeDef> {
    match kw(i, "typedef"@) { Some(r) => match decl(r) { Some((d, r)) => match close(r, ";"@) { Some(r) => Some((TypeDef::Declaration(d), r)), None => None }, None => None }, None => None }
}
pub open spec fn enum_def(i: Seq<char>) -> P<TypeDef> {
    match named(i, "enum"@) { Some((n, r)) => match enum_body(cm0(r)) { Some((b, r)) => match close(r, ";"@) { Some(r) => Some((TypeDef::Enum(str_of(n), vec_of(b)), r)), None => None }, None => None }, None => None }
}
pub open spec fn struct_def(i: Seq<char>) -> P<TypeDef> {
    match named(i, "struct"@) { Some((n, r)) => match struct_body(cm0(r)) { Some((b, r)) => match close(r, ";"@) { Some(r) => Some((TypeDef::Struct(str_of(n), vec_of(b)), r)), None => None }, None => None }, None => None }
}
pub open spec fn union_def(i: Seq<char>) -> P<TypeDef> {
    match named(i, "union"@) { Some((n, r)) => match union_body(cm0(r)) { Some((b, r)) => match close(r, ";"@) { Some(r) => Some((TypeDef::Union(str_of(n), b), r)), None => None }, None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn type_def(i: Seq<char>) -> P<TypeDef> {
    if typedef_def(i) is Some { typedef_def(i) } else if enum_def(i) is Some { enum_def(i) } else if struct_def(i) is Some { struct_def(i) } else { union_def(i) }
}
pub open spec fn number(i: Seq<char>) -> P<Value> {
    match tg(i, "="@) { Some(r) => match value(cm0(r)) { Some((v, r)) => match close(r, ";"@) { Some(r) => Some((v, r)), None => None }, None => None }, None => None }
}
pub open spec fn tspec_void(i: Seq<char>) -> P<TypeSpecifier> { if tspec(i) is Some { tspec(i) } else { match tg(i, "void"@) { Some(r) => Some((TypeSpecifier::Void, r)), None => None } } }
#[verifier::opaque]
pub open spec fn procedure(i: Seq<char>) -> P<Procedure> {
    match tspec_void(i) { Some((a, r)) => match spaced(r) { Some((n, r)) => match pun(r, "("@) { Some(r) => match tspec_void(r) { Some((b, r)) => match pun(r, ")"@) { Some(r) => match number(r) {
        Some((v, r)) => Some((Procedure { res_ty: a, method: str_of(n), req_ty: b, value: v }, r)), None => None }, None => None }, None => None }, None => None }, None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn procedures(acc: Seq<Procedure>, i: Seq<char>) -> (Seq<Procedure>, Seq<char>) decreases i.len() {
    match procedure(i) { Some((p, r)) => if cm0(r).len() < i.len() { procedures(acc.push(p), cm0(r)) } else { (acc, i) }, None => (acc, i) }
}
#[verifier::opaque]
pub open spec fn version(i: Seq<char>) -> P<Version> {
    match named(i, "version"@) { Some((n, r)) => match pun(r, "{"@) { Some(r) => match procedure(r) { Some((p, r)) => { let (ps, r) = procedures(seq![p], cm0(r)); match pun(r, "}"@) { Some(r) => match number(r) {
        Some((v, r)) => Some((Version { name: str_of(n), procedures: vec_of(ps), value: v }, r)), None => None }, None => None } }, None => None }, None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn versions(acc: Seq<Version>, i: Seq<char>) -> (Seq<Version>, Seq<char>) decreases i.len() {
    match version(i) { Some((p, r)) => if cm0(r).len() < i.len() { versions(acc.push(p), cm0(r)) } else { (acc, i) }, None => (acc, i) }
}
#[verifier::opaque]
pub open spec fn program(i: Seq<char>) -> P<Program> {
    match named(i, "program"@) { Some((n, r)) => match pun(r, "{"@) { Some(r) => match version(r) { Some((p, r)) => { let (ps, r) = versions(seq![p], cm0(r)); match pun(r, "}"@) { Some(r) => match number(r) {
        Some((v, r)) => Some((Program { name: str_of(n), versions: vec_of(ps), value: v }, r)), None => None }, None => None } }, None => None }, None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn comment_line(i: Seq<char>) -> Option<Seq<char>> {
    match tg(i, "%"@) { Some(r) => if eol_ok(r) && eol(after(r, 8)) > 0 { Some(after(r, 8).skip(eol(after(r, 8)))) } else { None }, None => None }
}
#[verifier::opaque]
pub open spec fn definition(i: Seq<char>) -> P<Definition> {
    if constant_def(i) is Some { Some((Definition::Constant(constant_def(i).unwrap().0), constant_def(i).unwrap().1)) }
    else if type_def(i) is Some { Some((Definition::Type(type_def(i).unwrap().0), type_def(i).unwrap().1)) }
    else if program(i) is Some { Some((Definition::Program(program(i).unwrap().0), program(i).unwrap().1)) }
    else { match comment_line(i) { Some(r) => Some((Definition::LineComment, r)), None => None } }
}
#[verifier::opaque]
pub open spec fn definitions(acc: Seq<Definition>, i: Seq<char>) -> (Seq<Definition>, Seq<char>) decreases i.len() {
    match definition(i) { Some((d, r)) => if cm0(r).len() < i.len() { definitions(acc.push(d), cm0(r)) } else { (acc, i) }, None => (acc, i) }
}
#[verifier::opaque]
pub open spec fn specification(i: Seq<char>) -> (Seq<Definition>, Seq<char>) { definitions(Seq::empty(), cm0(i)) }

// ---- what the mutually recursive functions are, without fuel
#[verifier::opaque]
pub open spec fn decl_def(i: Seq<char>) -> P<Declaration> {
    if opaque_fixed(i) is Some { opaque_fixed(i) } else if opaque_var(i) is Some { opaque_var(i) } else if string(i) is Some { string(i) }
    else {
        let t = tspec(i);
        if t is Some && typed(t.unwrap().0, t.unwrap().1) is Some { typed(t.unwrap().0, t.unwrap().1) }
        else { match tg(i, "void"@) { Some(r) => Some((Declaration::Void, r)), None => None } }
    }
}
#[verifier::opaque]
pub open spec fn tspec_def(i: Seq<char>) -> P<TypeSpecifier> {
    if basic(i) is Some { basic(i) }
    else if enum_spec(i) is Some { Some((TypeSpecifier::Enum(bx(enum_spec(i).unwrap().0)), enum_spec(i).unwrap().1)) }
    else if struct_spec(i) is Some { Some((TypeSpecifier::Struct(bx(struct_spec(i).unwrap().0)), struct_spec(i).unwrap().1)) }
    else if union_spec(i) is Some { Some((TypeSpecifier::Union(bx(union_spec(i).unwrap().0)), union_spec(i).unwrap().1)) }
    else { match ident(i) { Some((n, r)) => Some((TypeSpecifier::Identifier(str_of(n)), r)), None => None } }
}
#[verifier::opaque]
pub open spec fn struct_spec_def(i: Seq<char>) -> P<StructTypeSpec> {
    match kw(i, "struct"@) { Some(r) => if r.len() < i.len() { match struct_body(r) { Some((b, r)) => Some((StructTypeSpec { body: vec_of(b) }, r)), None => None } } else { None }, None => None }
}
#[verifier::opaque]
pub open spec fn union_spec_def(i: Seq<char>) -> P<UnionTypeSpec> {
    match kw(i, "union"@) { Some(r) => if r.len() < i.len() { match union_body(r) { Some((b, r)) => Some((UnionTypeSpec { body: b }, r)), None => None } } else { None }, None => None }
}
#[verifier::opaque]
pub open spec fn member_def(i: Seq<char>) -> P<Declaration> {
    match decl(i) { Some((d, r)) => match pun(r, ";"@) { Some(r) => Some((d, r)), None => None }, None => None }
}
#[verifier::opaque]
pub open spec fn members_def(acc: Seq<Declaration>, i: Seq<char>) -> (Seq<Declaration>, Seq<char>) {
    match member(i) { Some((d, r)) => if r.len() < i.len() { members(acc.push(d), r) } else { (acc, i) }, None => (acc, i) }
}
#[verifier::opaque]
pub open spec fn struct_body_def(i: Seq<char>) -> P<Seq<Declaration>> {
    match open(i, "{"@) {
        Some(r) => if r.len() < i.len() { match member(r) { Some((d, r)) => if r.len() < i.len() { let (v, r) = members(seq![d], r); match close(r, "}"@) { Some(r) => Some((v, r)), None => None } } else { None }, None => None } } else { None },
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn case_def(i: Seq<char>) -> P<CaseSpec> {
    match label(i) {
        Some((v, r)) => {
            let (vs, r) = labels(seq![v], r);
            if r.len() < i.len() { match decl(r) { Some((d, r)) => match close(r, ";"@) { Some(r) => Some((CaseSpec { values: vec_of(vs), declaration: d }, r)), None => None }, None => None } } else { None }
        }
        None => None,
    }
}
#[verifier::opaque]
pub open spec fn cases_def(acc: Seq<CaseSpec>, i: Seq<char>) -> (Seq<CaseSpec>, Seq<char>) {
    match case(i) { Some((c, r)) => if cm0(r).len() < i.len() { cases(acc.push(c), cm0(r)) } else { (acc, i) }, None => (acc, i) }
}
#[verifier::opaque]
pub open spec fn default_def(i: Seq<char>) -> P<Declaration> {
    match default_head(i) { Some(r) => if r.len() < i.len() { match decl(r) { Some((d, r)) => match close(r, ";"@) { Some(r) => Some((d, r)), None => None }, None => None } } else { None }, None => None }
}
#[verifier::opaque]
pub open spec fn union_body_def(i: Seq<char>) -> P<UnionBody> {
    match switch_head(i) {
        Some(r) => if r.len() < i.len() { match decl(r) {
            Some((c, r)) => match switch_open(r) {
                Some(r) => if r.len() < i.len() { match case(r) {
                    Some((s, r)) => if cm0(r).len() < i.len() {
                        let cs = cases(seq![s], cm0(r));
                        if cs.1.len() < i.len() { union_tail(c, cs, default(cs.1)) } else { None }
                    } else { None },
                    None => None,
                } } else { None },
                None => None,
            },
            None => None,
        } } else { None },
        None => None,
    }
}
pub proof fn u_decl(i: Seq<char>) ensures decl(i) == decl_def(i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(decl_def); }
pub proof fn u_tspec(i: Seq<char>) ensures tspec(i) == tspec_def(i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(tspec_def); }
pub proof fn u_struct_spec(i: Seq<char>) ensures struct_spec(i) == struct_spec_def(i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(struct_spec_def); }
pub proof fn u_union_spec(i: Seq<char>) ensures union_spec(i) == union_spec_def(i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(union_spec_def); }
pub proof fn u_member(i: Seq<char>) ensures member(i) == member_def(i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(member_def); }
pub proof fn u_members(acc: Seq<Declaration>, i: Seq<char>) ensures members(acc, i) == members_def(acc, i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(members_def); }
pub proof fn u_struct_body(i: Seq<char>) ensures struct_body(i) == struct_body_def(i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(struct_body_def); }
pub proof fn u_case(i: Seq<char>) ensures case(i) == case_def(i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(case_def); }
pub proof fn u_cases(acc: Seq<CaseSpec>, i: Seq<char>) ensures cases(acc, i) == cases_def(acc, i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(cases_def); }
pub proof fn u_default(i: Seq<char>) ensures default(i) == default_def(i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(default_def); }
pub proof fn u_union_body(i: Seq<char>) ensures union_body(i) == union_body_def(i) { reveal_with_fuel(decl, 2); reveal_with_fuel(tspec, 2); reveal_with_fuel(struct_spec, 2); reveal_with_fuel(union_spec, 2); reveal_with_fuel(member, 2); reveal_with_fuel(members, 2); reveal_with_fuel(struct_body, 2); reveal_with_fuel(case, 2); reveal_with_fuel(cases, 2); reveal_with_fuel(default, 2); reveal_with_fuel(union_body, 2); reveal(union_body_def); }
// ---- the repetitions, part-way
pub open spec fn enum_at(i: Seq<char>, acc: Seq<Assign>, cur: Seq<char>) -> bool {
    match open(i, "{"@) { Some(r) => match assign(r) { Some((a, r)) => assigns(acc, cur) == assigns(seq![a], r), None => false }, None => false }
}
pub open spec fn struct_at(i: Seq<char>, acc: Seq<Declaration>, cur: Seq<char>) -> bool {
    match open(i, "{"@) { Some(r) => match member(r) { Some((a, r)) => members(acc, cur) == members(seq![a], r), None => false }, None => false }
}
pub open spec fn labels_at(i: Seq<char>, acc: Seq<Value>, cur: Seq<char>) -> bool { match label(i) { Some((v, r)) => labels(acc, cur) == labels(seq![v], r), None => false } }
pub open spec fn union_at(i: Seq<char>, acc: Seq<CaseSpec>, cur: Seq<char>) -> bool {
    match switch_head(i) { Some(r) => match decl(r) { Some((c, r)) => match switch_open(r) { Some(r) => match case(r) { Some((s, r)) => cases(acc, cur) == cases(seq![s], cm0(r)), None => false }, None => false }, None => false }, None => false }
}
pub open spec fn version_at(i: Seq<char>, acc: Seq<Procedure>, cur: Seq<char>) -> bool {
    match named(i, "version"@) { Some((n, r)) => match pun(r, "{"@) { Some(r) => match procedure(r) { Some((p, r)) => procedures(acc, cur) == procedures(seq![p], cm0(r)), None => false }, None => false }, None => false }
}
pub open spec fn program_at(i: Seq<char>, acc: Seq<Version>, cur: Seq<char>) -> bool {
    match named(i, "program"@) { Some((n, r)) => match pun(r, "{"@) { Some(r) => match version(r) { Some((p, r)) => versions(acc, cur) == versions(seq![p], cm0(r)), None => false }, None => false }, None => false }
}
}
@@root
/// what the grammar means for its users
pub mod spec_parse {
use vstd::prelude::*;
use crate::vx::*;
use crate::nom::*;
use crate::lit::{self, P};
use crate::parser::{Definition, TypeSpecifier};
use crate::g::*;
pub open spec fn name_of(i: Seq<char>) -> Seq<char> { before(i, after(i, 6)) }
pub open spec fn letters(k: Seq<char>) -> bool { k.len() > 0 && forall|j: int| 0 <= j < k.len() ==> cls(6, #[trigger] k[j]) }
pub proof fn run_over(i: Seq<char>, n: int) requires 0 <= n <= i.len(), forall|j: int| 0 <= j < n ==> cls(6, #[trigger] i[j]) ensures run(i, 6) == n + run(i.skip(n), 6) decreases n {
    reveal_with_fuel(run, 2);
    if n > 0 { assert forall|j: int| 0 <= j < n - 1 implies cls(6, #[trigger] i.skip(1)[j]) by { assert(i.skip(1)[j] == i[j + 1]); } run_over(i.skip(1), n - 1); assert(i.skip(1).skip(n - 1) =~= i.skip(n)); } else { assert(i.skip(0) =~= i); }
}
/// a keyword that ends where the first word ends is the first word
pub proof fn first_word(i: Seq<char>, k: Seq<char>) requires tg(i, k) is Some, letters(k), run(tg(i, k)->0, 6) == 0 ensures name_of(i) == k {
    reveal(tg); reveal(after); assert forall|j: int| 0 <= j < k.len() implies cls(6, #[trigger] i[j]) by { assert(i[j] == k[j]); assert(cls(6, k[j])); } run_over(i, k.len() as int); text_facts(); assert(name_of(i) =~= k);
}
/// neither the keyword nor anything that starts with it and white space
pub proof fn no_word(i: Seq<char>, k: Seq<char>) requires letters(k), name_of(i) != k ensures word(i, k) is None, kw(i, k) is None {
    text_facts();
    if word(i, k) is Some { first_word(i, k); }
    if kw(i, k) is Some { let r = tg(i, k)->0; assert(cls(0, r[0])); assert(!cls(6, r[0])); first_word(i, k); }
}
/// the words that are types by themselves, or begin one
pub open spec fn type_word(s: Seq<char>) -> bool { reserved(s) || s == "char"@ || s == "short"@ }
/// a name is the longest run of letters, digits and underscores, does not start with a digit, and is not a reserved word
pub proof fn names(i: Seq<char>) ensures match ident(i) { Some((n, r)) => n == name_of(i) && r == after(i, 6) && run(r, 6) == 0 && !reserved(n) && n.len() > 0 && !cls(3, n[0]) && letters(n), None => true } {
    reveal(ident); text_facts(); lit::run_cls(i, 6); reveal(after);
}
/// a name that is no type keyword is read as a name, whatever it begins with
pub proof fn names_are_types(i: Seq<char>) requires ident(i) is Some, !type_word(name_of(i)) ensures tspec(i) == Some((TypeSpecifier::Identifier(str_of(name_of(i))), after(i, 6))) {
    names(i); reveal(tspec_def); u_tspec(i); reveal(basic); reveal(reserved); reveal(enum_spec); reveal(struct_spec_def); reveal(union_spec_def); u_struct_spec(i); u_union_spec(i);
    reveal_strlit("int"); assert(letters("int"@)) by { assert("int"@[0] == 'i'); assert("int"@[1] == 'n'); assert("int"@[2] == 't'); } no_word(i, "int"@);
    reveal_strlit("hyper"); assert(letters("hyper"@)) by { assert("hyper"@[0] == 'h'); assert("hyper"@[1] == 'y'); assert("hyper"@[2] == 'p'); assert("hyper"@[3] == 'e'); assert("hyper"@[4] == 'r'); } no_word(i, "hyper"@);
    reveal_strlit("char"); assert(letters("char"@)) by { assert("char"@[0] == 'c'); assert("char"@[1] == 'h'); assert("char"@[2] == 'a'); assert("char"@[3] == 'r'); } no_word(i, "char"@);
    reveal_strlit("short"); assert(letters("short"@)) by { assert("short"@[0] == 's'); assert("short"@[1] == 'h'); assert("short"@[2] == 'o'); assert("short"@[3] == 'r'); assert("short"@[4] == 't'); } no_word(i, "short"@);
    reveal_strlit("unsigned"); assert(letters("unsigned"@)) by { assert("unsigned"@[0] == 'u'); assert("unsigned"@[1] == 'n'); assert("unsigned"@[2] == 's'); assert("unsigned"@[3] == 'i'); assert("unsigned"@[4] == 'g'); assert("unsigned"@[5] == 'n'); assert("unsigned"@[6] == 'e'); assert("unsigned"@[7] == 'd'); } no_word(i, "unsigned"@);
    reveal_strlit("float"); assert(letters("float"@)) by { assert("float"@[0] == 'f'); assert("float"@[1] == 'l'); assert("float"@[2] == 'o'); assert("float"@[3] == 'a'); assert("float"@[4] == 't'); } no_word(i, "float"@);
    reveal_strlit("double"); assert(letters("double"@)) by { assert("double"@[0] == 'd'); assert("double"@[1] == 'o'); assert("double"@[2] == 'u'); assert("double"@[3] == 'b'); assert("double"@[4] == 'l'); assert("double"@[5] == 'e'); } no_word(i, "double"@);
    reveal_strlit("quadruple"); assert(letters("quadruple"@)) by { assert("quadruple"@[0] == 'q'); assert("quadruple"@[1] == 'u'); assert("quadruple"@[2] == 'a'); assert("quadruple"@[3] == 'd'); assert("quadruple"@[4] == 'r'); assert("quadruple"@[5] == 'u'); assert("quadruple"@[6] == 'p'); assert("quadruple"@[7] == 'l'); assert("quadruple"@[8] == 'e'); } no_word(i, "quadruple"@);
    reveal_strlit("bool"); assert(letters("bool"@)) by { assert("bool"@[0] == 'b'); assert("bool"@[1] == 'o'); assert("bool"@[2] == 'o'); assert("bool"@[3] == 'l'); } no_word(i, "bool"@);
    reveal_strlit("enum"); assert(letters("enum"@)) by { assert("enum"@[0] == 'e'); assert("enum"@[1] == 'n'); assert("enum"@[2] == 'u'); assert("enum"@[3] == 'm'); } no_word(i, "enum"@);
    reveal_strlit("struct"); assert(letters("struct"@)) by { assert("struct"@[0] == 's'); assert("struct"@[1] == 't'); assert("struct"@[2] == 'r'); assert("struct"@[3] == 'u'); assert("struct"@[4] == 'c'); assert("struct"@[5] == 't'); } no_word(i, "struct"@);
    reveal_strlit("union"); assert(letters("union"@)) by { assert("union"@[0] == 'u'); assert("union"@[1] == 'n'); assert("union"@[2] == 'i'); assert("union"@[3] == 'o'); assert("union"@[4] == 'n'); } no_word(i, "union"@);
}
/// a type that is not written with a body ends at the end of a word
pub proof fn types_are_words(i: Seq<char>) ensures match tspec(i) { Some((t, r)) => t is Enum || t is Struct || t is Union || run(r, 6) == 0, None => true } {
    reveal(tspec_def); u_tspec(i); reveal(basic); names(i);
}
/// and a name among them is not reserved
pub proof fn type_names(i: Seq<char>) ensures match tspec(i) { Some((TypeSpecifier::Identifier(n), r)) => !reserved(n@) && n@ == name_of(i), None => true, _ => true } {
    broadcast use ax_str_of; reveal(tspec_def); u_tspec(i); reveal(basic); names(i);
}
// ---- white space and comments do not matter
pub proof fn space(c: char, i: Seq<char>) requires cls(0, c) ensures cm0(seq![c] + i) == cm0(i) {
    reveal(cm0); text_facts(); let j = seq![c] + i; assert(j.skip(1) =~= i); assert(after(i, 0) == after(j, 0)) by { assert(cls(0, j[0])); assert(after(j.skip(1), 0) == after(j, 0)); }
}
proof fn first_at(b: Seq<char>, p: Seq<char>, n: int) requires 0 <= n <= b.len(), starts(b.skip(n), p), forall|j: int| 0 <= j < n ==> !starts(#[trigger] b.skip(j), p) ensures first(b, p) == Some(n) decreases n {
    reveal_with_fuel(first, 2);
    assert(b.skip(0) =~= b);
    if n > 0 { assert(!starts(b.skip(0), p)); assert forall|j: int| 0 <= j < n - 1 implies !starts(#[trigger] b.skip(1).skip(j), p) by { assert(b.skip(1).skip(j) =~= b.skip(j + 1)); } assert(b.skip(1).skip(n - 1) =~= b.skip(n)); first_at(b.skip(1), p, n - 1); }
}
/// t: what is between the marks of a comment
pub proof fn note(t: Seq<char>, i: Seq<char>) requires forall|j: int| 0 <= j < t.len() ==> !starts(#[trigger] (t + "*/"@ + i).skip(j), "*/"@) ensures cm0("/*"@ + t + "*/"@ + i) == cm0(i) {
    reveal_strlit("/*"); reveal_strlit("*/"); assert("/*"@.len() == 2 && "*/"@.len() == 2 && "/*"@[0] == '/');
    let j = "/*"@ + t + "*/"@ + i; let b = t + "*/"@ + i; let e = "*/"@ + i;
    assert(j.skip(2) =~= b); assert(b.skip(t.len() as int) =~= e); assert(e.skip(2) =~= i); assert(starts(j, "/*"@)); assert(starts(e, "*/"@));
    first_at(b, "*/"@, t.len() as int);
    text_facts(); reveal(tg); reveal(from); reveal(cm0); assert(!cls(0, j[0])); assert(after(j, 0) == j); assert(comment(j) == Some(after(i, 0))); reveal_with_fuel(comments, 2);
}
pub proof fn cm0_cm0(i: Seq<char>) ensures cm0(cm0(i)) == cm0(i) { reveal(cm0); text_facts(); comments_idem(after(i, 0)); }
proof fn comments_idem(i: Seq<char>) requires run(i, 0) == 0 ensures comments(i) == cm0(comments(i)) && run(comments(i), 0) == 0 decreases i.len() {
    reveal_with_fuel(comments, 2); reveal(cm0); text_facts();
    match comment(i) { Some(r) => if r.len() < i.len() { comments_idem(r); }, None => {} }
}
/// the entries are those of the definitions one after the other
pub proof fn in_order(acc: Seq<Definition>, i: Seq<char>) ensures definitions(acc, i) == (acc + definitions(Seq::empty(), i).0, definitions(Seq::empty(), i).1) decreases i.len() {
    reveal_with_fuel(definitions, 2);
    match definition(i) {
        Some((d, r)) => if cm0(r).len() < i.len() { in_order(acc.push(d), cm0(r)); in_order(Seq::empty().push(d), cm0(r)); assert(acc.push(d) + definitions(Seq::empty(), cm0(r)).0 =~= acc + (Seq::empty().push(d) + definitions(Seq::empty(), cm0(r)).0)); } else { assert(acc + Seq::empty() =~= acc); },
        None => { assert(acc + Seq::empty() =~= acc); }
    }
}
pub proof fn vx_canary_types(i: Seq<char>) requires tspec(i) is Some ensures !(tspec(i).unwrap().0 is Hyper) { reveal(tspec_def); u_tspec(i); reveal(basic); }
pub proof fn vx_canary_spec(i: Seq<char>) requires specification(i).1.len() == 0 ensures specification(i).0.len() < 2 { reveal(specification); reveal_with_fuel(definitions, 3); }
}
@@module parser
use crate::g::{self, okrest};
@@fn parser::comment0
    ensures okrest(r, $1@, Some(g::cm0($1@)))
@@body parser::comment0
    proof { VX_STRS reveal(g::cm0); reveal(g::comments); text_facts(); }
@@loop parser::comment0 0
    vx_err0 is None, g::comments(vx_cur0@) == g::cm0($1@), !vx_go0 ==> g::comment(vx_cur0@) is None,
@@optional parser::word_end
    ensures okrest(r, $1@, g::ends($1@))
@@body parser::word_end
    proof { VX_STRS text_facts(); }
@@fn keyword::xdr_reserved
    ensures r == crate::g::reserved($1@)
@@body keyword::xdr_reserved
    proof { reveal(crate::g::reserved); }
@@fn parser::identifier
    ensures match r { Ok((rest, v)) => g::ident($1@) == Some((v@, rest@)) && rest@.len() < $1@.len(), Err(e) => e is Error && g::ident($1@) is None }
@@body parser::identifier
    proof { VX_STRS reveal(g::ident); text_facts(); assert(suf($1@, $1@)); }
@@loop parser::identifier 0
    vx_err0 is None, suf($1@, vx_cur0@), vx_cur0@.len() < $1@.len(), run($1@, 6) > 0, run($1@, 3) == 0, after(vx_cur0@, 6) == after($1@, 6), !vx_go0 ==> run(vx_cur0@, 6) == 0,
@@fn parser::value
    ensures ok(r, $1@, g::value($1@))
@@body parser::value
    proof { VX_STRS reveal(g::value); }
@@fn parser::assign
    ensures ok(r, $1@, g::assign($1@))
@@body parser::assign
    proof { VX_STRS reveal(g::assign); }
@@fn parser::constant_def
    ensures ok(r, $1@, g::constant_def($1@))
@@body parser::constant_def
    proof { VX_STRS reveal(g::constant_def); }
@@fn parser::comment_line
    ensures match r { Ok((rest, v)) => g::comment_line($1@) == Some(rest@) && rest@.len() < $1@.len(), Err(e) => e is Error && g::comment_line($1@) is None }
@@body parser::comment_line
    proof { VX_STRS reveal(g::comment_line); }
@@fn parser::declaration
    ensures ok(r, $1@, g::decl($1@))
    decreases $1@.len(), 2int
@@body parser::declaration
    proof { VX_STRS reveal(g::decl_def); g::u_decl($1@); }
@@fn parser::type_specifier
    ensures ok(r, $1@, g::tspec($1@))
    decreases $1@.len(), 1int
@@body parser::type_specifier
    proof { VX_STRS reveal(g::tspec_def); g::u_tspec($1@); reveal(g::basic); tg_chars(); heads(); reveal(g::enum_spec); reveal(g::struct_spec_def); reveal(g::union_spec_def); g::u_struct_spec($1@); g::u_union_spec($1@); }
@@fn parser::enum_type_spec
    ensures ok(r, $1@, g::enum_spec($1@))
@@body parser::enum_type_spec
    proof { VX_STRS reveal(g::enum_spec); }
@@fn parser::struct_type_spec
    ensures ok(r, $1@, g::struct_spec($1@))
    decreases $1@.len(), 0int
@@body parser::struct_type_spec
    proof { VX_STRS reveal(g::struct_spec_def); g::u_struct_spec($1@); }
@@fn parser::union_type_spec
    ensures ok(r, $1@, g::union_spec($1@))
    decreases $1@.len(), 0int
@@body parser::union_type_spec
    proof { VX_STRS reveal(g::union_spec_def); g::u_union_spec($1@); }
@@fn parser::enum_body
    ensures match r { Ok((rest, v)) => g::enum_body($1@) == Some((v@, rest@)) && rest@.len() < $1@.len(), Err(e) => e is Error && g::enum_body($1@) is None }
@@body parser::enum_body
    proof { VX_STRS reveal(g::enum_body); reveal(g::assigns); }
@@loop parser::enum_body 0
    vx_err0 is None, g::enum_at($1@, vx_acc0@, vx_cur0@), !vx_go0 ==> g::next_assign(vx_cur0@) is None,
@@fn parser::struct_body
    ensures match r { Ok((rest, v)) => g::struct_body($1@) == Some((v@, rest@)) && rest@.len() < $1@.len(), Err(e) => e is Error && g::struct_body($1@) is None }
    decreases $1@.len(), 0int
@@body parser::struct_body
    proof { VX_STRS reveal(g::struct_body_def); reveal(g::members_def); reveal(g::member_def); g::u_struct_body($1@); assert forall|j: Seq<char>| #[trigger] g::member(j) == g::member_def(j) by { g::u_member(j); } }
@@after parser::struct_body loop0_after
    proof { g::u_members(vx_acc0@, vx_cur0@); }
@@after parser::struct_body loop0
    proof { g::u_members(vx_acc0@, vx_cur0@); }
@@loop parser::struct_body 0
    vx_err0 is None, g::struct_at($1@, vx_acc0@, vx_cur0@), vx_cur0@.len() < $1@.len(), !vx_go0 ==> g::member(vx_cur0@) is None,
@@fn parser::case_spec
    ensures ok(r, $1@, g::case($1@))
    decreases $1@.len(), 0int
@@body parser::case_spec
    proof { VX_STRS reveal(g::case_def); reveal(g::labels); g::u_case($1@); }
@@loop parser::case_spec 0
    vx_err0 is None, g::labels_at($1@, vx_acc0@, vx_cur0@), vx_cur0@.len() < $1@.len(), !vx_go0 ==> g::label(vx_cur0@) is None,
@@fn parser::union_body
    ensures ok(r, $1@, g::union_body($1@))
    decreases $1@.len(), 0int
@@body parser::union_body
    proof { VX_STRS reveal(g::union_body_def); reveal(g::cases_def); reveal(g::default_def); g::u_union_body($1@); assert forall|j: Seq<char>| #[trigger] g::default(j) == g::default_def(j) by { g::u_default(j); } }
@@after parser::union_body loop0_after
    proof { g::u_cases(vx_acc0@, vx_cur0@); }
@@after parser::union_body loop0
    proof { g::u_cases(vx_acc0@, vx_cur0@); }
@@loop parser::union_body 0
    vx_err0 is None, g::union_at($1@, vx_acc0@, vx_cur0@), vx_cur0@.len() < $1@.len(), !vx_go0 ==> g::case(vx_cur0@) is None,
@@fn parser::type_def
    ensures ok(r, $1@, g::type_def($1@))
@@body parser::type_def
    proof { VX_STRS reveal(g::type_def); }
@@fn parser::procedure
    ensures ok(r, $1@, g::procedure($1@))
@@body parser::procedure
    proof { VX_STRS reveal(g::procedure); }
@@fn parser::version
    ensures ok(r, $1@, g::version($1@))
@@body parser::version
    proof { VX_STRS reveal(g::version); reveal(g::procedures); }
@@loop parser::version 0
    vx_err0 is None, g::version_at($1@, vx_acc0@, vx_cur0@), vx_cur0@.len() < $1@.len(), !vx_go0 ==> g::procedure(vx_cur0@) is None,
@@fn parser::program
    ensures ok(r, $1@, g::program($1@))
@@body parser::program
    proof { VX_STRS reveal(g::program); reveal(g::versions); }
@@loop parser::program 0
    vx_err0 is None, g::program_at($1@, vx_acc0@, vx_cur0@), vx_cur0@.len() < $1@.len(), !vx_go0 ==> g::version(vx_cur0@) is None,
@@fn parser::definition
    ensures ok(r, $1@, g::definition($1@))
@@body parser::definition
    proof { VX_STRS reveal(g::definition); }
@@fn parser::specification
    ensures match r { Ok((rest, v)) => g::specification($1@) == (v@, rest@), Err(e) => false }
@@body parser::specification
    proof { VX_STRS reveal(g::specification); reveal(g::definitions); }
@@loop parser::specification 0
    vx_err0 is None, g::definitions(vx_acc0@, vx_cur0@) == g::specification($1@), !vx_go0 ==> g::definition(vx_cur0@) is None,
@@fn parser::parse
    ensures match r { Ok(v) => g::specification($1@).1.len() == 0 && v@ == g::specification($1@).0, Err(_) => g::specification($1@).1.len() > 0 }
@@body parser::parse
    proof { VX_STRS  }
@@module parser
broadcast use {crate::vx::values, crate::g::ax_bx};
@@fn parser::decimal_nonzero
    ensures ok(r, $1@, lit::decimal($1@))
@@body parser::decimal_nonzero
    proof { lit::one_of_digits(); VX_STRS reveal(lit::decimal); text_facts(); assert(suf($1@, $1@)); }
@@loop parser::decimal_nonzero 0
    vx_err0 is None, suf($1@, vx_cur0@), vx_cur0@.len() < $1@.len(), lit::decimal($1@) == Some((Constant::Decimal(str_of(before($1@, after(vx_cur0@, 3)))), after(vx_cur0@, 3))), !vx_go0 ==> run(vx_cur0@, 3) == 0,
@@fn parser::hexadecimal
    ensures ok(r, $1@, lit::hex($1@))
@@body parser::hexadecimal
    proof { VX_STRS reveal(lit::hex); text_facts(); }
@@loop parser::hexadecimal 0
    vx_err0 is None, crate::nom::tg($1@, "0x"@) is Some, run(crate::nom::tg($1@, "0x"@)->0, 4) > 0, suf(crate::nom::tg($1@, "0x"@)->0, vx_cur0@), after(vx_cur0@, 4) == after(crate::nom::tg($1@, "0x"@)->0, 4), !vx_go0 ==> run(vx_cur0@, 4) == 0,
@@fn parser::octal
    ensures ok(r, $1@, lit::octal($1@))
@@body parser::octal
    proof { VX_STRS reveal(lit::octal); text_facts(); }
@@loop parser::octal 0
    vx_err0 is None, crate::nom::tg($1@, "0"@) is Some, run(crate::nom::tg($1@, "0"@)->0, 5) > 0, suf(crate::nom::tg($1@, "0"@)->0, vx_cur0@), after(vx_cur0@, 5) == after(crate::nom::tg($1@, "0"@)->0, 5), !vx_go0 ==> run(vx_cur0@, 5) == 0,
@@fn parser::constant
    ensures ok(r, $1@, lit::constant($1@))
@@body parser::constant
    proof { VX_STRS lit::literal_total($1@); reveal(lit::constant); reveal(lit::zero_lit); }
