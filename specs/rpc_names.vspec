@@root
/// names of constants and enumerators
pub mod names {
use vstd::prelude::*;
use crate::vx::*;
use crate::parser::*;
use crate::gen_code::Context;
/// the first constant of that name
pub open spec fn konst_from(s: Seq<(VxString, Value)>, n: Seq<char>, k: int) -> Option<Value> decreases s.len() - k {
    if k < 0 || k >= s.len() { None } else if s[k].0@ == n { Some(s[k].1) } else { konst_from(s, n, k + 1) }
}
/// the first enumerator of that name in an enum
pub open spec fn in_enum(s: Seq<Assign>, n: Seq<char>, k: int) -> Option<Value> decreases s.len() - k {
    if k < 0 || k >= s.len() { None } else if s[k].identifier@ == n { Some(s[k].value) } else { in_enum(s, n, k + 1) }
}
pub open spec fn of_def(t: TypeDef, n: Seq<char>) -> Option<Value> { match t { TypeDef::Enum(_, a) => in_enum(a@, n, 0), _ => None } }
/// the first enumerator of that name
pub open spec fn enumr_from(s: Seq<(VxString, TypeDef)>, n: Seq<char>, k: int) -> Option<Value> decreases s.len() - k {
    if k < 0 || k >= s.len() { None } else if of_def(s[k].1, n) is Some { of_def(s[k].1, n) } else { enumr_from(s, n, k + 1) }
}
#[verifier::opaque]
pub open spec fn konst(c: Context, n: Seq<char>) -> Option<Value> { konst_from(c.constants@, n, 0) }
#[verifier::opaque]
pub open spec fn enumr(c: Context, n: Seq<char>) -> Option<Value> { enumr_from(c.typedefs@, n, 0) }
/// what a name is defined as: constants come before enumerators
pub open spec fn def(c: Context, n: Seq<char>) -> Option<Value> { if konst(c, n) is Some { konst(c, n) } else { enumr(c, n) } }
/// the value after k names were replaced by their definitions
pub open spec fn at(c: Context, v: Value, k: int) -> Option<Value> decreases k {
    if k <= 0 { Some(v) } else { match at(c, v, k - 1) { Some(Value::Identifier(s)) => def(c, s@), _ => None } }
}
pub open spec fn reach(c: Context, v: Value, k: int, x: Constant) -> bool { k >= 0 && at(c, v, k) == Some(Value::Constant(x)) }
/// v denotes the literal x: after some number of replacements
pub open spec fn denotes(c: Context, v: Value, x: Constant) -> bool { exists|k: int| reach(c, v, k, x) }
/// r is the number v denotes as a T; an error if v denotes none, or one that T does not have
pub open spec fn resolved<T: VxTryFrom<Constant>>(c: Context, v: Value, r: Result<T, crate::error::Error>) -> bool {
    &&& (forall|x: Constant| #[trigger] denotes(c, v, x) ==> match r { Ok(t) => T::conv(x) == Some(t), Err(_) => T::conv(x) is None })
    &&& ((forall|x: Constant| !#[trigger] denotes(c, v, x)) ==> r is Err)
}
/// all the names there are
pub open spec fn enum_names(s: Seq<(VxString, TypeDef)>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { enum_names(s.drop_last()) + match s.last().1 { TypeDef::Enum(_, a) => Seq::new(a@.len(), |j: int| a@[j].identifier@), _ => Seq::empty() } }
}
#[verifier::opaque]
pub open spec fn all_names(c: Context) -> Seq<Seq<char>> { Seq::new(c.constants@.len(), |j: int| c.constants@[j].0@) + enum_names(c.typedefs@) }
proof fn konst_in(s: Seq<(VxString, Value)>, n: Seq<char>, k: int) requires konst_from(s, n, k) is Some ensures exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0@ == n decreases s.len() - k { if s[k].0@ == n {} else { konst_in(s, n, k + 1); } }
proof fn in_enum_in(s: Seq<Assign>, n: Seq<char>, k: int) requires in_enum(s, n, k) is Some ensures exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).identifier@ == n decreases s.len() - k { if s[k].identifier@ == n {} else { in_enum_in(s, n, k + 1); } }
proof fn enumr_which(s: Seq<(VxString, TypeDef)>, n: Seq<char>, k: int) requires enumr_from(s, n, k) is Some ensures exists|j: int| 0 <= j < s.len() && of_def((#[trigger] s[j]).1, n) is Some decreases s.len() - k { if of_def(s[k].1, n) is Some {} else { enumr_which(s, n, k + 1); } }
proof fn enum_names_has(s: Seq<(VxString, TypeDef)>, n: Seq<char>, j: int) requires 0 <= j < s.len(), of_def(s[j].1, n) is Some ensures enum_names(s).contains(n) decreases s.len() {
    let p = enum_names(s.drop_last());
    let a = match s.last().1 { TypeDef::Enum(_, a) => Seq::new(a@.len(), |j: int| a@[j].identifier@), _ => Seq::empty() };
    if j == s.len() - 1 {
        match s[j].1 { TypeDef::Enum(_, e) => { in_enum_in(e@, n, 0); let i = choose|i: int| 0 <= i < e@.len() && (#[trigger] e@[i]).identifier@ == n; assert(a[i] == n); assert((p + a)[p.len() + i] == n); } _ => {} }
    } else {
        assert(s.drop_last()[j] == s[j]); enum_names_has(s.drop_last(), n, j); let i = choose|i: int| 0 <= i < p.len() && p[i] == n; assert((p + a)[i] == n);
    }
}
proof fn def_named(c: Context, n: Seq<char>) requires def(c, n) is Some ensures all_names(c).contains(n) {
    reveal(konst); reveal(enumr); reveal(all_names);
    let p = Seq::new(c.constants@.len(), |j: int| c.constants@[j].0@); let q = enum_names(c.typedefs@);
    if konst(c, n) is Some { konst_in(c.constants@, n, 0); let j = choose|j: int| 0 <= j < c.constants@.len() && (#[trigger] c.constants@[j]).0@ == n; assert((p + q)[j] == n); }
    else { enumr_which(c.typedefs@, n, 0); let j = choose|j: int| 0 <= j < c.typedefs@.len() && of_def((#[trigger] c.typedefs@[j]).1, n) is Some; enum_names_has(c.typedefs@, n, j); let i = choose|i: int| 0 <= i < q.len() && q[i] == n; assert((p + q)[p.len() + i] == n); }
}
/// the walk is a function of where it is
pub proof fn at_add(c: Context, v: Value, i: int, j: int) requires i >= 0, j >= 0, at(c, v, i) is Some ensures at(c, v, i + j) == at(c, at(c, v, i).unwrap(), j) decreases j { if j > 0 { at_add(c, v, i, j - 1); } }
pub proof fn at_prev(c: Context, v: Value, i: int, k: int) requires 0 <= i <= k, at(c, v, k) is Some ensures at(c, v, i) is Some, i < k ==> at(c, v, i).unwrap() is Identifier decreases k - i { if i < k { at_prev(c, v, i + 1, k); } }
/// only one literal is reached, at one place
pub proof fn unique(c: Context, v: Value, k: int, x: Constant, j: int, y: Constant) requires reach(c, v, k, x), reach(c, v, j, y) ensures x == y, k == j {
    if k < j { at_prev(c, v, k, j); } else if j < k { at_prev(c, v, j, k); }
}
pub proof fn denotes_at(c: Context, v: Value, k: int, x: Constant) requires reach(c, v, k, x) ensures denotes(c, v, x), forall|y: Constant| #[trigger] denotes(c, v, y) ==> y == x {
    assert forall|y: Constant| #[trigger] denotes(c, v, y) implies y == x by { let j = choose|j: int| reach(c, v, j, y); unique(c, v, k, x, j, y); }
}
/// a walk that ends does not take more steps than there are names
pub proof fn bound(c: Context, v: Value, k: int, x: Constant) requires reach(c, v, k, x) ensures k <= all_names(c).len() {
    let w = Seq::new(k as nat, |i: int| at(c, v, i).unwrap()->Identifier_0@);
    assert forall|i: int| 0 <= i < k implies #[trigger] at(c, v, i) is Some && at(c, v, i).unwrap() is Identifier by { at_prev(c, v, i, k); }
    assert forall|i: int| 0 <= i < k implies all_names(c).contains(#[trigger] w[i]) by { at_prev(c, v, i + 1, k); assert(at(c, v, i) is Some); def_named(c, w[i]); }
    assert(w.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i] != w[j] by { if i < j { distinct(c, v, k, x, i, j); } else { distinct(c, v, k, x, j, i); } }
    }
    w.unique_seq_to_set();
    all_names(c).lemma_cardinality_of_set();
    assert(w.to_set().subset_of(all_names(c).to_set())) by { assert forall|n: Seq<char>| w.to_set().contains(n) implies all_names(c).to_set().contains(n) by { let i = choose|i: int| 0 <= i < w.len() && w[i] == n; assert(all_names(c).contains(w[i])); } }
    vstd::set_lib::lemma_len_subset(w.to_set(), all_names(c).to_set());
}
proof fn distinct(c: Context, v: Value, k: int, x: Constant, i: int, j: int) requires reach(c, v, k, x), 0 <= i < j < k ensures at(c, v, i).unwrap()->Identifier_0@ != at(c, v, j).unwrap()->Identifier_0@ {
    at_prev(c, v, i, k); at_prev(c, v, j, k); at_prev(c, v, i + 1, k); at_prev(c, v, j + 1, k);
    if at(c, v, i).unwrap()->Identifier_0@ == at(c, v, j).unwrap()->Identifier_0@ {
        // the same definition follows: the walk would be at its end twice
        assert(at(c, v, i + 1) == at(c, v, j + 1));
        at_add(c, v, i + 1, k - j - 1); at_add(c, v, j + 1, k - j - 1);
        assert(at(c, v, i + 1 + (k - j - 1)) == at(c, v, k));
        at_prev(c, v, i + 1 + (k - j - 1), k);
    }
}
/// a walk that is nowhere after k steps, or at a name after as many steps as there are names, never ends at a literal
pub proof fn lost(c: Context, v: Value, k: int) requires k >= 0, at(c, v, k) is None, forall|i: int| 0 <= i < k ==> #[trigger] at(c, v, i) is Some && at(c, v, i).unwrap() is Identifier ensures forall|x: Constant| !#[trigger] denotes(c, v, x) {
    assert forall|x: Constant| !#[trigger] denotes(c, v, x) by { if denotes(c, v, x) { let j = choose|j: int| reach(c, v, j, x); if j < k { assert(at(c, v, j) is Some); } else { at_prev(c, v, k, j); } } }
}
pub proof fn cyclic(c: Context, v: Value, k: int) requires k > all_names(c).len(), at(c, v, k) is Some ensures forall|x: Constant| !#[trigger] denotes(c, v, x) {
    assert forall|x: Constant| !#[trigger] denotes(c, v, x) by { if denotes(c, v, x) { let j = choose|j: int| reach(c, v, j, x); bound(c, v, j, x); at_prev(c, v, j, k); } }
}
/// a name denotes what its definition denotes
pub proof fn named(c: Context, s: VxString) ensures match def(c, s@) { Some(w) => forall|x: Constant| #![trigger denotes(c, Value::Identifier(s), x)] #![trigger denotes(c, w, x)] denotes(c, Value::Identifier(s), x) <==> denotes(c, w, x), None => forall|x: Constant| !#[trigger] denotes(c, Value::Identifier(s), x) } {
    let v = Value::Identifier(s);
    assert(at(c, v, 0) == Some(v)); assert(at(c, v, 1) == def(c, s@));
    match def(c, s@) {
        Some(w) => { assert forall|x: Constant| #[trigger] denotes(c, v, x) <==> denotes(c, w, x) by {
            if denotes(c, v, x) { let k = choose|k: int| reach(c, v, k, x); assert(k > 0); at_add(c, v, 1, k - 1); assert(reach(c, w, k - 1, x)); }
            if denotes(c, w, x) { let k = choose|k: int| reach(c, w, k, x); at_add(c, v, 1, k); assert(reach(c, v, k + 1, x)); }
        } }
        None => { lost(c, v, 1); }
    }
}
pub proof fn literal(c: Context, x: Constant) ensures denotes(c, Value::Constant(x), x), forall|y: Constant| #[trigger] denotes(c, Value::Constant(x), y) ==> y == x { assert(reach(c, Value::Constant(x), 0, x)); denotes_at(c, Value::Constant(x), 0, x); }
/// a definition that leads back to itself denotes nothing
pub proof fn back(c: Context, s: VxString, k: int) requires k > 0, at(c, Value::Identifier(s), k) == Some(Value::Identifier(s)) ensures forall|x: Constant| !#[trigger] denotes(c, Value::Identifier(s), x) {
    let v = Value::Identifier(s);
    assert forall|x: Constant| !#[trigger] denotes(c, v, x) by { if denotes(c, v, x) { let j = choose|j: int| reach(c, v, j, x); at_add(c, v, k, j); assert(reach(c, v, k + j, x)); unique(c, v, j, x, k + j, x); } }
}
pub proof fn enum_names_mono(s: Seq<(VxString, TypeDef)>) ensures forall|k: int| 0 <= k <= s.len() ==> enum_names(#[trigger] s.take(k)).len() <= enum_names(s).len() decreases s.len() {
    assert forall|k: int| 0 <= k <= s.len() implies enum_names(#[trigger] s.take(k)).len() <= enum_names(s).len() by {
        if k < s.len() { enum_names_mono(s.drop_last()); assert(s.drop_last().take(k) =~= s.take(k)); } else { assert(s.take(k) =~= s); }
    }
}
/// what one step of the walk finds
pub proof fn step(c: Context, v: Value, k: int) requires k >= 0, at(c, v, k) is Some ensures
    match at(c, v, k).unwrap() { Value::Constant(x) => denotes(c, v, x) && (forall|y: Constant| #[trigger] denotes(c, v, y) ==> y == x), Value::Identifier(s) => at(c, v, k + 1) == def(c, s@) && (def(c, s@) is None ==> forall|x: Constant| !#[trigger] denotes(c, v, x)) }
{
    match at(c, v, k).unwrap() { Value::Constant(x) => { assert(reach(c, v, k, x)); denotes_at(c, v, k, x); }, Value::Identifier(s) => { assert(at(c, v, k + 1) == def(c, s@)); if def(c, s@) is None {
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] at(c, v, i) is Some && at(c, v, i).unwrap() is Identifier by { at_prev(c, v, i, k); }
        lost(c, v, k + 1); } } }
}
/// the first constant of that name in a specification
pub open spec fn first_konst(d: Seq<Definition>, n: Seq<char>) -> Option<Value> decreases d.len() {
    if d.len() == 0 { None } else if first_konst(d.drop_last(), n) is Some { first_konst(d.drop_last(), n) } else { match d.last() { Definition::Constant(a) => if a.identifier@ == n { Some(a.value) } else { None }, _ => None } }
}
/// the first enumerator of that name in a specification
pub open spec fn first_enumr(d: Seq<Definition>, n: Seq<char>) -> Option<Value> decreases d.len() {
    if d.len() == 0 { None } else if first_enumr(d.drop_last(), n) is Some { first_enumr(d.drop_last(), n) } else { match d.last() { Definition::Type(t) => of_def(t, n), _ => None } }
}
/// what is known is what the specification says
pub open spec fn says(c: Context, d: Seq<Definition>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] konst(c, n) == first_konst(d, n)
    &&& forall|n: Seq<char>| #[trigger] enumr(c, n) == first_enumr(d, n)
}
pub proof fn konst_push(s: Seq<(VxString, Value)>, x: (VxString, Value), n: Seq<char>, k: int) requires 0 <= k <= s.len() ensures konst_from(s.push(x), n, k) == (if konst_from(s, n, k) is Some { konst_from(s, n, k) } else if x.0@ == n { Some(x.1) } else { None }) decreases s.len() - k {
    if k < s.len() { konst_push(s, x, n, k + 1); } else { assert(konst_from(s.push(x), n, k + 1) is None); }
}
pub proof fn enumr_push(s: Seq<(VxString, TypeDef)>, x: (VxString, TypeDef), n: Seq<char>, k: int) requires 0 <= k <= s.len() ensures enumr_from(s.push(x), n, k) == (if enumr_from(s, n, k) is Some { enumr_from(s, n, k) } else { of_def(x.1, n) }) decreases s.len() - k {
    if k < s.len() { enumr_push(s, x, n, k + 1); } else { assert(enumr_from(s.push(x), n, k + 1) is None); }
}
/// one more definition: nothing, a constant or a type was added
pub proof fn says_more(a: Context, b: Context, d: Seq<Definition>, k: int)
    requires 0 <= k < d.len(), says(a, d.take(k)), match d[k] {
        Definition::Constant(x) => b.typedefs@ == a.typedefs@ && exists|v: (VxString, Value)| b.constants@ == #[trigger] a.constants@.push(v) && v.0@ == x.identifier@ && v.1 == x.value,
        Definition::Type(t) => b.constants@ == a.constants@ && (b.typedefs@ == a.typedefs@ && !(t is Enum) || exists|v: (VxString, TypeDef)| b.typedefs@ == #[trigger] a.typedefs@.push(v) && v.1 == t),
        _ => b.constants@ == a.constants@ && b.typedefs@ == a.typedefs@ }
    ensures says(b, d.take(k + 1))
{
    reveal(konst); reveal(enumr);
    assert(d.take(k + 1).drop_last() =~= d.take(k));
    assert forall|n: Seq<char>| #[trigger] konst(b, n) == first_konst(d.take(k + 1), n) by { assert(konst(a, n) == first_konst(d.take(k), n)); match d[k] { Definition::Constant(x) => { let v = choose|v: (VxString, Value)| b.constants@ == #[trigger] a.constants@.push(v) && v.0@ == x.identifier@ && v.1 == x.value; konst_push(a.constants@, v, n, 0); } _ => {} } }
    assert forall|n: Seq<char>| #[trigger] enumr(b, n) == first_enumr(d.take(k + 1), n) by { assert(enumr(a, n) == first_enumr(d.take(k), n)); match d[k] { Definition::Type(t) => { if b.typedefs@ != a.typedefs@ || t is Enum { let v = choose|v: (VxString, TypeDef)| b.typedefs@ == #[trigger] a.typedefs@.push(v) && v.1 == t; enumr_push(a.typedefs@, v, n, 0); } } _ => {} } }
}
pub proof fn vx_canary_names(c: Context, n: Seq<char>) requires def(c, n) is Some ensures konst(c, n) is Some {}
}
@@module gen_code
use crate::names::{self, denotes, resolved, def, at, reach};
@@fn Context::find_const
    ensures match r { Some(v) => names::konst(*self, $1@) == Some(*v), None => names::konst(*self, $1@) is None }
@@body Context::find_const
    proof { reveal(names::konst); }
@@loop Context::find_const 0
    vx_c0@ == self.constants@, match vx_res0 { None => names::konst_from(vx_c0@, $1@, 0) == names::konst_from(vx_c0@, $1@, vx_k0 as int), Some(y) => names::konst_from(vx_c0@, $1@, 0) == Some(y.1) },
@@fn Context::find_enumerator
    ensures match r { Some(v) => names::enumr(*self, $1@) == Some(*v), None => names::enumr(*self, $1@) is None }
@@body Context::find_enumerator
    proof { reveal(names::enumr); }
@@loop Context::find_enumerator 0
    vx_c0@ == self.typedefs@, names::enumr_from(vx_c0@, $1@, 0) == names::enumr_from(vx_c0@, $1@, vx_k0 as int),
@@loop Context::find_enumerator 1
    names::enumr_from(vx_c0@, $1@, 0) == names::enumr_from(vx_c0@, $1@, vx_k0 - 1), match vx_res1 { None => names::in_enum(vx_c1@, $1@, 0) == names::in_enum(vx_c1@, $1@, vx_k1 as int), Some(y) => names::in_enum(vx_c1@, $1@, 0) == Some(y.value) },
@@fn Context::count_names
    requires names::all_names(*self).len() <= usize::MAX
    ensures r == names::all_names(*self).len()
@@body Context::count_names
    proof { reveal(names::all_names); names::enum_names_mono(self.typedefs@); }
@@loop Context::count_names 0
    vx_c0@ == self.typedefs@, count == self.constants@.len() + names::enum_names(vx_c0@.take(vx_k0 as int)).len(),
@@after Context::count_names loop0
    proof { assert(vx_c0@.take(vx_k0 + 1).drop_last() =~= vx_c0@.take(vx_k0 as int)); }
@@after Context::count_names loop0_after
    proof { assert(vx_c0@.take(vx_k0 as int) =~= vx_c0@); }
@@fn Context::resolve_chain
    requires names::all_names(*self).len() < usize::MAX
    ensures resolved(*self, *$1, r)
@@loop Context::resolve_chain 0
    vx_c0 == names::all_names(*self).len(), at(*self, *$1, if vx_m0 { vx_k0 as int } else { vx_c0 + 1 }) == Some(*value),
@@after Context::resolve_chain loop0
    proof { names::step(*self, *$1, vx_k0 as int); }
@@after Context::resolve_chain loop0_after
    proof { names::cyclic(*self, *$1, vx_c0 + 1); }
@@fn Context::resolve_value
    requires names::all_names(*self).len() < usize::MAX
    ensures resolved(*self, *$1, r)
@@body Context::resolve_value
    proof { if *$1 is Constant { names::literal(*self, (*$1)->Constant_0); } }
@@fn Context::resolve_name
    requires names::all_names(*self).len() < usize::MAX
    ensures resolved(*self, Value::Identifier(crate::vx::str_of($1@)), r)
@@body Context::resolve_name
    proof { names::named(*self, crate::vx::str_of($1@)); }
@@fn Context::resolve_const_value
    requires names::all_names(*self).len() < usize::MAX
    ensures match names::konst(*self, $1@) { Some(v) => resolved(*self, v, r), None => r is Err }
@@fn Context::resolve_enum_value
    requires names::all_names(*self).len() < usize::MAX
    ensures match names::enumr(*self, $1@) { Some(v) => resolved(*self, v, r), None => r is Err }
@@module parser
@@helper Declaration::name
@@module gen_code
@@helper Context::is_cyclic_typedef
@@helper Context::find_alias
@@fn gen_code::setup_context
    requires old($2).constants@.len() == 0, old($2).typedefs@.len() == 0
    ensures r is Ok ==> names::says(*final($2), $1@)
@@body gen_code::setup_context
    proof { reveal(names::konst); reveal(names::enumr); assert($1@.take(0) =~= Seq::empty()); }
@@loop gen_code::setup_context 0
    vx_c0@ == $1@, names::says(*$2, vx_c0@.take(vx_k0 as int)),
@@after gen_code::setup_context loop0
    let ghost vx_was = *$2;
@@after gen_code::setup_context loop0_end
    proof {
        if $2.constants@.len() > vx_was.constants@.len() { assert($2.constants@ == vx_was.constants@.push($2.constants@.last())); }
        if $2.typedefs@.len() > vx_was.typedefs@.len() { assert($2.typedefs@ == vx_was.typedefs@.push($2.typedefs@.last())); }
        names::says_more(vx_was, *$2, vx_c0@, vx_k0 - 1);
    }
@@after gen_code::setup_context loop0_after
    proof { assert(vx_c0@.take(vx_k0 as int) =~= vx_c0@); }
