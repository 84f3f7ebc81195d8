@@comment
The code generator gives an answer for everything that the parser can give it
@@root
pub mod gen {
use vstd::prelude::*;
use crate::vx::*;
use crate::vxs::*;
use crate::names;
use crate::parser::*;
use crate::gen_code::Context;
// ---- what the parser gives: names are identifiers
pub open spec fn named_by(v: Value) -> bool { match v { Value::Identifier(s) => word(s@), Value::Constant(_) => true } }
pub open spec fn type_ok(t: TypeSpecifier) -> bool { match t { TypeSpecifier::Identifier(s) => word(s@), _ => true } }
#[verifier::opaque]
pub open spec fn decl_ok(d: Declaration) -> bool { (match name_of(d) { Some(n) => word(n@), None => true }) && (match type_of(d) { Some(t) => type_ok(t), None => true }) }
pub open spec fn name_of(d: Declaration) -> Option<VxString> {
    match d { Declaration::Variable(_, n) => Some(n), Declaration::FixedArray(_, n, _) => Some(n), Declaration::VariableArray(_, n, _) => Some(n), Declaration::OpaqueFixedArray(n, _) => Some(n), Declaration::OpaqueVariableArray(n, _) => Some(n), Declaration::String(n, _) => Some(n), Declaration::OptionVariable(_, n) => Some(n), Declaration::Void => None }
}
/// the type of what is declared, if it is written as one
pub open spec fn type_of(d: Declaration) -> Option<TypeSpecifier> {
    match d { Declaration::Variable(t, _) => Some(t), Declaration::FixedArray(t, _, _) => Some(t), Declaration::VariableArray(t, _, _) => Some(t), Declaration::OptionVariable(t, _) => Some(t), _ => None }
}
#[verifier::opaque]
pub open spec fn assigns_ok(a: Seq<Assign>) -> bool { forall|j: int| 0 <= j < a.len() ==> word((#[trigger] a[j]).identifier@) }
#[verifier::opaque]
pub open spec fn decls_ok(a: Seq<Declaration>) -> bool { forall|j: int| 0 <= j < a.len() ==> decl_ok(#[trigger] a[j]) }
pub open spec fn case_ok(c: CaseSpec) -> bool { decl_ok(c.declaration) && forall|j: int| 0 <= j < c.values@.len() ==> named_by(#[trigger] c.values@[j]) }
#[verifier::opaque]
pub open spec fn body_ok(b: UnionBody) -> bool { decl_ok(b.cond) && (match b.default { Some(d) => decl_ok(d), None => true }) && forall|j: int| 0 <= j < b.specs@.len() ==> case_ok(#[trigger] b.specs@[j]) }
pub open spec fn typedef_ok(t: TypeDef) -> bool {
    match t { TypeDef::Declaration(d) => decl_ok(d), TypeDef::Enum(n, a) => word(n@) && assigns_ok(a@), TypeDef::Struct(n, d) => word(n@) && decls_ok(d@), TypeDef::Union(n, b) => word(n@) && body_ok(b) }
}
pub open spec fn definition_ok(d: Definition) -> bool { match d { Definition::Constant(a) => word(a.identifier@), Definition::Type(t) => typedef_ok(t), _ => true } }
#[verifier::opaque]
pub open spec fn spec_ok(d: Seq<Definition>) -> bool { forall|j: int| 0 <= j < d.len() ==> definition_ok(#[trigger] d[j]) }
/// how many constants and enumerators a definition has
pub open spec fn names_in(d: Definition) -> nat { match d { Definition::Constant(_) => 1, Definition::Type(TypeDef::Enum(_, a)) => a@.len(), _ => 0 } }
pub open spec fn total(d: Seq<Definition>) -> nat decreases d.len() { if d.len() == 0 { 0 } else { total(d.drop_last()) + names_in(d.last()) } }
pub proof fn total_take(d: Seq<Definition>, k: int) requires 0 <= k < d.len() ensures total(d.take(k + 1)) == total(d.take(k)) + names_in(d[k]) { assert(d.take(k + 1).drop_last() =~= d.take(k)); }
// ---- what is known of the definitions
#[verifier::opaque]
pub open spec fn known_ok(c: Context) -> bool { (forall|j: int| 0 <= j < c.constants@.len() ==> word((#[trigger] c.constants@[j]).0@)) && (forall|j: int| 0 <= j < c.typedefs@.len() ==> word((#[trigger] c.typedefs@[j]).0@) && typedef_ok(c.typedefs@[j].1)) }
/// the definition of a type name
pub open spec fn lookup(s: Seq<(VxString, TypeDef)>, n: Seq<char>, k: int) -> Option<TypeDef> decreases s.len() - k { if k < 0 || k >= s.len() { None } else if s[k].0@ == n { Some(s[k].1) } else { lookup(s, n, k + 1) } }
pub open spec fn target(t: TypeSpecifier) -> Option<Seq<char>> { match t { TypeSpecifier::Identifier(s) => Some(s@), _ => None } }
pub open spec fn decl_target(d: Declaration) -> Option<Seq<char>> { match type_of(d) { Some(t) => target(t), None => None } }
/// the name another name stands for
#[verifier::opaque]
pub open spec fn alias(c: Context, n: Seq<char>) -> Option<Seq<char>> { match lookup(c.typedefs@, n, 0) { Some(TypeDef::Declaration(d)) => decl_target(d), _ => None } }
/// the number of names on the way from a name to a type, f at most
pub open spec fn depth(c: Context, n: Seq<char>, f: int) -> int decreases f { if f <= 0 { 0 } else { match alias(c, n) { Some(m) => 1 + depth(c, m, f - 1), None => 0 } } }
pub proof fn depth_le(c: Context, n: Seq<char>, f: int) requires f >= 0 ensures 0 <= depth(c, n, f) <= f decreases f { if f > 0 { match alias(c, n) { Some(m) => depth_le(c, m, f - 1), None => {} } } }
pub proof fn depth_same(c: Context, n: Seq<char>, f: int) requires f >= 0, depth(c, n, f) < f ensures depth(c, n, f + 1) == depth(c, n, f) decreases f { match alias(c, n) { Some(m) => { depth_same(c, m, f - 1); }, None => {} } }
pub open spec fn fuel(c: Context) -> int { c.typedefs@.len() as int + 1 }
/// no name leads back to itself
#[verifier::opaque]
pub open spec fn acyclic(c: Context) -> bool { forall|j: int| 0 <= j < c.typedefs@.len() ==> depth(c, (#[trigger] c.typedefs@[j]).0@, fuel(c)) < fuel(c) }
pub open spec fn ready(c: Context) -> bool { known_ok(c) && acyclic(c) && names::all_names(c).len() < usize::MAX }
#[verifier::opaque]
pub open spec fn rank(c: Context, n: Seq<char>) -> int { depth(c, n, fuel(c)) }
pub open spec fn type_rank(c: Context, t: TypeSpecifier) -> int { match t { TypeSpecifier::Identifier(s) => 3 * rank(c, s@) + 4, _ => 1 } }
pub open spec fn decl_rank(c: Context, d: Declaration) -> int { match type_of(d) { Some(t) => type_rank(c, t) + 1, None => 2 } }
proof fn lookup_in(s: Seq<(VxString, TypeDef)>, n: Seq<char>, k: int) requires 0 <= k, lookup(s, n, k) is Some ensures exists|j: int| k <= j < s.len() && (#[trigger] s[j]).0@ == n && lookup(s, n, k) == Some(s[j].1) decreases s.len() - k { if s[k].0@ == n {} else { lookup_in(s, n, k + 1); } }
pub proof fn rank_ge(c: Context, n: Seq<char>) ensures rank(c, n) >= 0 { reveal(rank); depth_le(c, n, fuel(c)); }
/// what a name stands for is nearer to a type than the name
pub proof fn nearer(c: Context, n: Seq<char>) requires ready(c) ensures match lookup(c.typedefs@, n, 0) { Some(TypeDef::Declaration(d)) => decl_ok(d) && 0 <= decl_rank(c, d) < 3 * rank(c, n) + 3, _ => true }, rank(c, n) >= 0 {
    reveal(rank); reveal(acyclic); reveal(known_ok); reveal(alias); depth_le(c, n, fuel(c));
    if lookup(c.typedefs@, n, 0) is Some {
        lookup_in(c.typedefs@, n, 0);
        let j = choose|j: int| 0 <= j < c.typedefs@.len() && (#[trigger] c.typedefs@[j]).0@ == n && lookup(c.typedefs@, n, 0) == Some(c.typedefs@[j].1);
        assert(typedef_ok(c.typedefs@[j].1));
        match alias(c, n) { Some(m) => { depth_le(c, m, fuel(c) - 1); depth_same(c, m, fuel(c) - 1); } None => {} }
    }
}
pub proof fn labels() ensures forall|n: int| n >= 0 ==> ident_ok(Seq::<char>::empty() + "_Reserved"@ + #[trigger] decimal(n)), forall|n: int| n >= 0 ==> ident_ok(Seq::<char>::empty() + "Case"@ + #[trigger] decimal(n)) {
    reveal_strlit("_Reserved"); reveal_strlit("Case");
    let (p, q) = (Seq::<char>::empty() + "_Reserved"@, Seq::<char>::empty() + "Case"@);
    assert forall|n: int| n >= 0 implies ident_ok(p + #[trigger] decimal(n)) && ident_ok(q + decimal(n)) by {
        digits_are(n); let d = decimal(n);
        assert forall|j: int| 0 <= j < (p + d).len() implies word_char(#[trigger] (p + d)[j]) by { if j >= p.len() { assert((p + d)[j] == d[j - p.len()]); } }
        assert forall|j: int| 0 <= j < (q + d).len() implies word_char(#[trigger] (q + d)[j]) by { if j >= q.len() { assert((q + d)[j] == d[j - q.len()]); } }
    }
}
/// v is the given name
pub open spec fn is_name(v: Value, n: Seq<char>) -> bool { match v { Value::Identifier(s) => s@ == n, _ => false } }
#[verifier::opaque]
pub open spec fn has_name(s: Seq<Value>, n: Seq<char>) -> bool { exists|j: int| 0 <= j < s.len() && is_name(#[trigger] s[j], n) }
pub open spec fn indexed_ok(s: Seq<(i32, &Assign)>) -> bool { forall|j: int| 0 <= j < s.len() ==> word((#[trigger] s[j]).1.identifier@) }
pub open spec fn cases_ok(s: Seq<(u32, Declaration, &Value)>) -> bool { forall|j: int| 0 <= j < s.len() ==> decl_ok((#[trigger] s[j]).1) && named_by(*s[j].2) }
pub proof fn word_ascii(s: Seq<char>) requires word(s) ensures ascii(s) {}
pub proof fn word_ident(s: Seq<char>) ensures word(s) ==> ident_ok(Seq::<char>::empty() + s) && ident_ok(s) { assert(Seq::<char>::empty() + s =~= s); }
pub proof fn vx_canary_gen(c: Context, n: Seq<char>) requires ready(c) ensures rank(c, n) == 0 {}
}
@@module parser
@@fn Declaration::name
    ensures match r { Some(n) => crate::gen::name_of(*self) is Some && crate::gen::name_of(*self).unwrap()@ == n@, None => crate::gen::name_of(*self) is None }
@@module gen_code
use crate::gen::{self, ready, decl_ok, rank, decl_rank, type_rank, type_ok, named_by};
@@fn Context::new
    ensures r.constants@.len() == 0, r.typedefs@.len() == 0
@@fn Context::is_enum_type
@@fn Context::find_alias
    ensures match r { Some(a) => gen::alias(*self, $1@) == Some(a@), None => gen::alias(*self, $1@) is None }
@@body Context::find_alias
    proof { reveal(gen::alias); }
@@loop Context::find_alias 0
    vx_c0@ == self.typedefs@, match vx_res0 { None => gen::lookup(vx_c0@, $1@, 0) == gen::lookup(vx_c0@, $1@, vx_k0 as int), Some(y) => gen::lookup(vx_c0@, $1@, 0) == Some(y.1) },
@@fn Context::resolve_alias
    requires ready(*self), type_ok(*$1)
    ensures type_ok(*r)
@@loop Context::resolve_alias 0
    ready(*self), type_ok(*ty),
@@loop Context::resolve_alias 1
    vx_c1@ == self.typedefs@, match vx_res1 { None => gen::lookup(vx_c1@, name@, 0) == gen::lookup(vx_c1@, name@, vx_k1 as int), Some(y) => gen::lookup(vx_c1@, name@, 0) == Some(y.1) },
@@after Context::resolve_alias loop0
    proof { match gen::target(*ty) { Some(n) => gen::nearer(*self, n), None => {} } reveal(gen::decl_ok); }
@@fn Context::is_cyclic_typedef
    ensures !r ==> gen::depth(*self, $1@, gen::fuel(*self)) < gen::fuel(*self)
@@loop Context::is_cyclic_typedef 0
    vx_c0 == self.typedefs@.len(), gen::depth(*self, $1@, vx_c0 + 1) == (if vx_m0 { vx_k0 as int } else { vx_c0 + 1 }) + gen::depth(*self, name@, if vx_m0 { vx_c0 + 1 - vx_k0 } else { 0 }),
@@fn gen_code::gen_code
    requires gen::spec_ok($1@), gen::total($1@) < usize::MAX
@@fn gen_code::setup_context
    requires gen::spec_ok($1@), gen::total($1@) < usize::MAX, old($2).constants@.len() == 0, old($2).typedefs@.len() == 0
    ensures r is Ok ==> ready(*final($2)), r is Ok ==> names::says(*final($2), $1@)
@@body gen_code::setup_context
    proof { reveal(gen::spec_ok); reveal(gen::known_ok); reveal(names::all_names); reveal(gen::decl_ok); assert($1@.take(0) =~= Seq::empty()); }
@@loop gen_code::setup_context 0
    vx_c0@ == $1@, names::says(*$2, vx_c0@.take(vx_k0 as int)), gen::known_ok(*$2), $2.constants@.len() + names::enum_names($2.typedefs@).len() == gen::total(vx_c0@.take(vx_k0 as int)),
@@after gen_code::setup_context loop0
    proof { gen::total_take(vx_c0@, vx_k0 as int); }
    let ghost (vx_tds, vx_cs) = ($2.typedefs@, $2.constants@);
@@after gen_code::setup_context loop0_end
    proof { if $2.typedefs@.len() > vx_tds.len() { assert($2.typedefs@.drop_last() =~= vx_tds); } }
@@after gen_code::setup_context loop0_after
    proof { assert(vx_c0@.take(vx_k0 as int) =~= vx_c0@); reveal(gen::acyclic); }
@@loop gen_code::setup_context 1
    vx_c1@ == $2.typedefs@, forall|j: int| 0 <= j < vx_k1 ==> gen::depth(*$2, (#[trigger] vx_c1@[j]).0@, gen::fuel(*$2)) < gen::fuel(*$2),
@@fn gen_code::constants_token
    requires ready(*$1)
@@loop gen_code::constants_token 0
    vx_c0@ == $1.constants@,
@@after gen_code::constants_token loop0
    proof { reveal(gen::known_ok); gen::word_ident(vx_c0@[vx_k0 as int].0@); }
@@fn gen_code::types_token
    requires ready(*$1)
@@loop gen_code::types_token 0
    vx_c0@ == $1.typedefs@,
@@after gen_code::types_token loop0
    proof { reveal(gen::known_ok); assert(gen::typedef_ok(vx_c0@[vx_k0 as int].1)); }
@@fn gen_code::convert_enum_token
    requires ready(*$3), word($1@), gen::assigns_ok($2@)
@@body gen_code::convert_enum_token
    proof { reveal(gen::assigns_ok); gen::labels(); }
@@loop gen_code::convert_enum_token 0
    vx_c0@ == $2@, $var0@.len() == vx_k0, gen::indexed_ok($var0@),
@@loop gen_code::convert_enum_token 1
    forall|j: int| 0 <= j < vx_k1 ==> #[trigger] vx_key1@[j] == vx_c1@[j].0,
@@loop gen_code::convert_enum_token 2
    $var3 ==> $var11 >= 0, forall|j: int| 0 <= j < vx_c2@.len() ==> word((#[trigger] vx_c2@[j]).1.identifier@) && ($var3 ==> vx_c2@[j].0 >= 0),
@@loop gen_code::convert_enum_token 3
    vx_k3 >= 0,
@@fn gen_code::convert_struct_token
    requires ready(*$3), word($1@), gen::decls_ok($2@)
@@body gen_code::convert_struct_token
    proof { reveal(gen::decls_ok); reveal(gen::decl_ok); }
@@loop gen_code::convert_struct_token 0
    vx_c0@ == $2@,
@@fn gen_code::convert_union_token
    requires ready(*$3), word($1@), gen::body_ok(*$2)
@@body gen_code::convert_union_token
    proof { reveal(gen::body_ok); reveal(gen::decl_ok); reveal(gen::has_name); gen::labels(); }
@@loop gen_code::convert_union_token 0
    vx_c0@ == $2.specs@, gen::cases_ok(values@),
@@loop gen_code::convert_union_token 1
    vx_c1@ == vx_c0@[vx_k0 - 1].values@, gen::cases_ok(values@),
@@loop gen_code::convert_union_token 4
    gen::cases_ok(vx_c4@),
@@loop gen_code::convert_union_token 6
    vx_c6@ == $2.specs@, match vx_res6 { Some(y) => gen::case_ok(*y) && gen::has_name(y.values@, "FALSE"@), None => true },
@@loop gen_code::convert_union_token 7
    vx_c7@ == vx_c6@[vx_k6 as int].values@, vx_res7 ==> gen::has_name(vx_c7@, "FALSE"@),
@@loop gen_code::convert_union_token 8
    match vx_res8 { Some(y) => named_by(*y), None => forall|j: int| 0 <= j < vx_k8 ==> !gen::is_name(#[trigger] vx_c8@[j], "FALSE"@) },
@@loop gen_code::convert_union_token 9
    vx_c9@ == $2.specs@, match vx_res9 { Some(y) => gen::case_ok(*y) && gen::has_name(y.values@, "TRUE"@), None => true },
@@loop gen_code::convert_union_token 10
    vx_c10@ == vx_c9@[vx_k9 as int].values@, vx_res10 ==> gen::has_name(vx_c10@, "TRUE"@),
@@loop gen_code::convert_union_token 11
    match vx_res11 { Some(y) => named_by(*y), None => forall|j: int| 0 <= j < vx_k11 ==> !gen::is_name(#[trigger] vx_c11@[j], "TRUE"@) },
@@fn gen_code::convert_label_token
    requires named_by(*$1)
@@body gen_code::convert_label_token
    proof { gen::labels(); }
@@fn gen_code::convert_type_token
    requires ready(*$2), decl_ok(*$1)
    decreases decl_rank(*$2, *$1)
@@body gen_code::convert_type_token
    proof { reveal(gen::decl_ok); match gen::decl_target(*$1) { Some(n) => gen::rank_ge(*$2, n), None => {} } }
@@fn gen_code::convert_primitive_token
    requires ready(*$2), type_ok(*$1)
    decreases type_rank(*$2, *$1)
@@body gen_code::convert_primitive_token
    proof { match gen::target(*$1) { Some(n) => gen::rank_ge(*$2, n), None => {} } }
@@fn gen_code::convert_case_token
    requires ready(*$4), named_by(*$1), decl_ok(*$2), type_ok(*$3)
@@fn gen_code::convert_arm_token
@@fn gen_code::resolve_type_token
    requires ready(*$2), word($1@)
    decreases 3 * rank(*$2, $1@) + 3
@@body gen_code::resolve_type_token
    proof { gen::nearer(*$2, $1@); }
@@loop gen_code::resolve_type_token 0
    vx_c0@ == $2.typedefs@, match vx_res0 { None => gen::lookup(vx_c0@, $1@, 0) == gen::lookup(vx_c0@, $1@, vx_k0 as int), Some(y) => gen::lookup(vx_c0@, $1@, 0) == Some(y.1) },
