@@comment
Prelude of the rpcgen extractions: strings and vectors whose values are exactly sequences, conversions, nom's primitives
@@root
pub mod vx {
use vstd::prelude::*;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxVec<T> { v: std::vec::Vec<T> }
impl<T> View for VxVec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> VxVec<T>;
pub broadcast axiom fn ax_vec_of<T>(s: Seq<T>) ensures (#[trigger] vec_of(s))@ == s;
pub broadcast axiom fn ax_vec_ext<T>(v: VxVec<T>) ensures vec_of(#[trigger] v@) == v;
impl<T> VxVec<T> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxString { v: std::string::String }
impl View for VxString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn str_of(s: Seq<char>) -> VxString;
pub broadcast axiom fn ax_str_of(s: Seq<char>) ensures (#[trigger] str_of(s))@ == s;
pub broadcast axiom fn ax_str_ext(v: VxString) ensures str_of(#[trigger] v@) == v;
pub broadcast group values { ax_vec_of, ax_vec_ext, ax_str_of, ax_str_ext }
impl core::ops::Deref for VxString {
    type Target = str;
    #[verifier::external_body] fn deref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
impl Clone for VxString { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait VxToString { spec fn text(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: VxString) ensures r@ == self.text(); }
impl VxToString for str { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) { unimplemented!() } }
impl VxToString for VxString { open spec fn text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) { unimplemented!() } }
#[verifier::external_body] pub fn vx_string_new() -> (r: VxString) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_string_from(s: &str) -> (r: VxString) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_format() -> VxString { unimplemented!() }
#[verifier::external_body] pub fn vx_panic<T>() -> T requires false { unimplemented!() }

pub trait VxEq<R: ?Sized> { spec fn seq(&self, o: &R) -> bool; fn vx_eq(&self, o: &R) -> (b: bool) ensures b == self.seq(o); }
impl VxEq<str> for str { open spec fn seq(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> (b: bool) { unimplemented!() } }
impl VxEq<VxString> for VxString { open spec fn seq(&self, o: &VxString) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &VxString) -> (b: bool) { unimplemented!() } }
impl VxEq<str> for VxString { open spec fn seq(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> (b: bool) { unimplemented!() } }
impl<'a> VxEq<&'a str> for VxString { open spec fn seq(&self, o: &&'a str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &&'a str) -> (b: bool) { unimplemented!() } }
impl<'a> VxEq<VxString> for &'a str { open spec fn seq(&self, o: &VxString) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &VxString) -> (b: bool) { unimplemented!() } }
impl VxEq<VxString> for str { open spec fn seq(&self, o: &VxString) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &VxString) -> (b: bool) { unimplemented!() } }
impl<'a, 'b, A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&'b B> for &'a A { open spec fn seq(&self, o: &&'b B) -> bool { (**self).seq(*o) } #[verifier::external_body] fn vx_eq(&self, o: &&'b B) -> (b: bool) { unimplemented!() } }

/// lengths: of a vector in elements, of a text in bytes
pub trait VxLen { spec fn len_ok(&self, n: usize) -> bool; fn vx_len(&self) -> (r: usize) ensures self.len_ok(r); fn vx_is_empty(&self) -> (b: bool) ensures exists|n: usize| self.len_ok(n) && b == (n == 0); }
impl VxLen for str { open spec fn len_ok(&self, n: usize) -> bool { n >= self@.len() && (n == 0 <==> self@.len() == 0) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vx_is_empty(&self) -> (b: bool) { unimplemented!() } }
impl VxLen for VxString { open spec fn len_ok(&self, n: usize) -> bool { n >= self@.len() && (n == 0 <==> self@.len() == 0) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vx_is_empty(&self) -> (b: bool) { unimplemented!() } }
impl<T> VxLen for VxVec<T> { open spec fn len_ok(&self, n: usize) -> bool { n == self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vx_is_empty(&self) -> (b: bool) { unimplemented!() } }
impl<T> VxLen for [T] { open spec fn len_ok(&self, n: usize) -> bool { n == self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vx_is_empty(&self) -> (b: bool) { unimplemented!() } }

pub struct VxIntError;
/// the number a text of digits denotes (an optional minus sign, then one or more digits)
pub open spec fn digit(c: char, b: int) -> Option<int> {
    let d = if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { 99 };
    if d < b { Some(d) } else { None }
}
pub open spec fn nat_of(s: Seq<char>, b: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0) } else { match (nat_of(s.drop_last(), b), digit(s.last(), b)) { (Some(n), Some(d)) => Some(n * b + d), _ => None } }
}
pub open spec fn int_of(s: Seq<char>, b: int) -> Option<int> {
    if s.len() == 0 { None }
    else if s[0] == '-' || s[0] == '+' { if s.len() == 1 { None } else { match nat_of(s.skip(1), b) { Some(n) => Some(if s[0] == '-' { -n } else { n }), None => None } } }
    else { nat_of(s, b) }
}
/// what the standard library reads from a text: the number, if the type has it (unsigned types take no minus sign)
pub open spec fn std_int(s: Seq<char>, b: int, lo: int, hi: int) -> Option<int> {
    match int_of(s, b) { Some(n) => if lo <= n <= hi && (lo < 0 || s[0] != '-') { Some(n) } else { None }, None => None }
}
pub trait VxParse: Sized {
    spec fn val(self) -> int;
    spec fn lo() -> int;
    spec fn hi() -> int;
    fn vx_from_str(s: &str) -> (r: Result<Self, VxIntError>) ensures match r { Ok(v) => std_int(s@, 10, Self::lo(), Self::hi()) == Some(v.val()), Err(_) => std_int(s@, 10, Self::lo(), Self::hi()) is None };
    fn vx_from_str_radix(s: &str, b: u32) -> (r: Result<Self, VxIntError>) ensures match r { Ok(v) => std_int(s@, b as int, Self::lo(), Self::hi()) == Some(v.val()), Err(_) => std_int(s@, b as int, Self::lo(), Self::hi()) is None };
}
impl VxParse for i32 { open spec fn val(self) -> int { self as int } open spec fn lo() -> int { i32::MIN as int } open spec fn hi() -> int { i32::MAX as int } #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<Self, VxIntError>) { unimplemented!() } #[verifier::external_body] fn vx_from_str_radix(s: &str, b: u32) -> (r: Result<Self, VxIntError>) { unimplemented!() } }
impl VxParse for u32 { open spec fn val(self) -> int { self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { u32::MAX as int } #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<Self, VxIntError>) { unimplemented!() } #[verifier::external_body] fn vx_from_str_radix(s: &str, b: u32) -> (r: Result<Self, VxIntError>) { unimplemented!() } }
impl VxParse for i64 { open spec fn val(self) -> int { self as int } open spec fn lo() -> int { i64::MIN as int } open spec fn hi() -> int { i64::MAX as int } #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<Self, VxIntError>) { unimplemented!() } #[verifier::external_body] fn vx_from_str_radix(s: &str, b: u32) -> (r: Result<Self, VxIntError>) { unimplemented!() } }
impl VxParse for u64 { open spec fn val(self) -> int { self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { u64::MAX as int } #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<Self, VxIntError>) { unimplemented!() } #[verifier::external_body] fn vx_from_str_radix(s: &str, b: u32) -> (r: Result<Self, VxIntError>) { unimplemented!() } }
impl VxParse for usize { open spec fn val(self) -> int { self as int } open spec fn lo() -> int { 0 } open spec fn hi() -> int { usize::MAX as int } #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<Self, VxIntError>) { unimplemented!() } #[verifier::external_body] fn vx_from_str_radix(s: &str, b: u32) -> (r: Result<Self, VxIntError>) { unimplemented!() } }
pub trait VxTryFrom<X>: Sized { type Error; spec fn conv(x: X) -> Option<Self>; fn vx_try_from(x: &X) -> (r: Result<Self, Self::Error>) ensures match r { Ok(v) => Self::conv(*x) == Some(v), Err(_) => Self::conv(*x) is None }; }
pub trait VxFrom<X>: Sized { fn vx_from(x: X) -> Self; }
impl VxFrom<crate::nom::NomErr> for crate::error::Error { #[verifier::external_body] fn vx_from(x: crate::nom::NomErr) -> (r: Self) { unimplemented!() } }
impl VxFrom<VxIntError> for crate::error::Error { #[verifier::external_body] fn vx_from(x: VxIntError) -> (r: Self) { unimplemented!() } }
impl VxFrom<crate::nom::NomErr> for crate::nom::NomErr { fn vx_from(x: crate::nom::NomErr) -> (r: Self) ensures r == x { x } }
impl VxFrom<crate::error::Error> for crate::error::Error { fn vx_from(x: crate::error::Error) -> (r: Self) ensures r == x { x } }
}
pub mod nom {
use vstd::prelude::*;
pub enum NomErr { Error, Failure, Incomplete }
pub open spec fn cls(k: int, c: char) -> bool {
    if k == 0 { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
    else if k == 1 { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
    else if k == 2 { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' }
    else if k == 3 { '0' <= c <= '9' }
    else if k == 4 { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
    else if k == 5 { '0' <= c <= '7' }
    else if k == 6 { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_' }
    else if k == 7 { c == ' ' || c == '\t' }
    else { c != '\r' && c != '\n' }
}
/// the length of the longest start of i whose characters are all of class k
#[verifier::opaque]
pub open spec fn run(i: Seq<char>, k: int) -> int decreases i.len() {
    if i.len() > 0 && cls(k, i[0]) { 1 + run(i.skip(1), k) } else { 0 }
}
/// what follows that start
#[verifier::opaque]
pub open spec fn after(i: Seq<char>, k: int) -> Seq<char> { i.skip(run(i, k)) }
pub open spec fn starts(i: Seq<char>, p: Seq<char>) -> bool { p.len() <= i.len() && forall|j: int| 0 <= j < p.len() ==> i[j] == #[trigger] p[j] }
/// what follows p at the start of i
#[verifier::opaque]
pub open spec fn tg(i: Seq<char>, p: Seq<char>) -> Option<Seq<char>> { if starts(i, p) { Some(i.skip(p.len() as int)) } else { None } }
/// where p is in i for the first time
#[verifier::opaque]
pub open spec fn first(i: Seq<char>, p: Seq<char>) -> Option<int> decreases i.len() {
    if starts(i, p) { Some(0) } else if i.len() == 0 { None } else { match first(i.skip(1), p) { Some(n) => Some(n + 1), None => None } }
}
/// i from there on
#[verifier::opaque]
pub open spec fn from(i: Seq<char>, p: Seq<char>) -> Option<Seq<char>> { match first(i, p) { Some(n) => Some(i.skip(n)), None => None } }
/// what is before a rest r of i
pub open spec fn before(i: Seq<char>, r: Seq<char>) -> Seq<char> { i.take(i.len() - r.len()) }
/// r is a rest of i
pub open spec fn suf(i: Seq<char>, r: Seq<char>) -> bool { r.len() <= i.len() && r == i.skip(i.len() - r.len()) }
pub proof fn run_le(i: Seq<char>, k: int) ensures 0 <= #[trigger] run(i, k) <= i.len() decreases i.len() { reveal_with_fuel(run, 2); if i.len() > 0 && cls(k, i[0]) { run_le(i.skip(1), k); } }
pub proof fn first_le(i: Seq<char>, p: Seq<char>) ensures match #[trigger] first(i, p) { Some(n) => 0 <= n && n + p.len() <= i.len() && starts(i.skip(n), p), None => true } decreases i.len() {
    reveal_with_fuel(first, 2);
    if starts(i, p) { assert(i.skip(0) =~= i); } else if i.len() > 0 { first_le(i.skip(1), p); match first(i.skip(1), p) { Some(n) => { assert(i.skip(n + 1) =~= i.skip(1).skip(n)); } None => {} } }
}
pub proof fn run_end(i: Seq<char>, k: int) ensures run(#[trigger] after(i, k), k) == 0 decreases i.len() { reveal_with_fuel(run, 2); reveal(after); run_le(i, k); if i.len() > 0 && cls(k, i[0]) { run_end(i.skip(1), k); run_le(i.skip(1), k); assert(i.skip(1).skip(run(i.skip(1), k)) =~= i.skip(run(i, k))); } else { assert(i.skip(0) =~= i); } }
/// every character of class k is of class m
pub open spec fn sub(k: int, m: int) -> bool { k == m || m == 2 && (k == 1 || k == 3) || m == 6 && (k == 1 || k == 2 || k == 3) || m == 0 && k == 7 || m == 4 && (k == 3 || k == 5) || m == 3 && k == 5 }
pub proof fn after_sub(i: Seq<char>, k: int, m: int) requires sub(k, m) ensures after(after(i, k), m) == after(i, m) decreases i.len() {
    reveal_with_fuel(run, 2); reveal(after);
    if i.len() > 0 && cls(k, i[0]) {
        assert(cls(m, i[0])); run_le(i.skip(1), k); run_le(i.skip(1), m); after_sub(i.skip(1), k, m);
        assert(i.skip(1).skip(run(i.skip(1), k)) =~= i.skip(run(i, k))); assert(i.skip(1).skip(run(i.skip(1), m)) =~= i.skip(run(i, m)));
    } else { assert(i.skip(0) =~= i); }
}
/// how runs, prefixes and rests go together
pub proof fn text_facts() ensures
    forall|i: Seq<char>, k: int| #![trigger run(i, k)] 0 <= run(i, k) <= i.len() && (run(i, k) > 0 <==> i.len() > 0 && cls(k, i[0])),
    forall|i: Seq<char>, k: int| #![trigger after(i, k)] after(i, k).len() == i.len() - run(i, k) && (run(i, k) == 0 ==> after(i, k) == i) && run(after(i, k), k) == 0 && suf(i, after(i, k)),
    forall|i: Seq<char>, k: int, m: int| #![trigger after(after(i, k), m)] sub(k, m) ==> after(after(i, k), m) == after(i, m),
    forall|i: Seq<char>, p: Seq<char>| #![trigger tg(i, p)] p.len() == 1 ==> tg(i, p) == (if i.len() > 0 && i[0] == p[0] { Some(i.skip(1)) } else { None }),
    forall|i: Seq<char>, k: int| #![trigger after(i.skip(1), k)] i.len() > 0 && cls(k, i[0]) ==> after(i.skip(1), k) == after(i, k),
    forall|i: Seq<char>, j: Seq<char>, k: int| #![trigger suf(i, j), after(j, k)] suf(i, j) ==> suf(i, after(j, k)),
    forall|i: Seq<char>, j: Seq<char>| #![trigger suf(i, j), j.skip(1)] suf(i, j) && j.len() > 0 ==> suf(i, j.skip(1)),
    forall|i: Seq<char>, j: Seq<char>, p: Seq<char>| #![trigger suf(i, j), tg(j, p)] suf(i, j) && tg(j, p) is Some ==> suf(i, tg(j, p)->0),
    forall|i: Seq<char>| #![trigger suf(i, i)] suf(i, i),
{
    reveal(tg); reveal(after);
    assert forall|i: Seq<char>, k: int| #![trigger run(i, k)] 0 <= run(i, k) <= i.len() && (run(i, k) > 0 <==> i.len() > 0 && cls(k, i[0])) by { reveal_with_fuel(run, 2); run_le(i, k); run_le(i.skip(1), k); }
    assert forall|i: Seq<char>, k: int| #![trigger after(i, k)] after(i, k).len() == i.len() - run(i, k) && (run(i, k) == 0 ==> after(i, k) == i) && run(after(i, k), k) == 0 && suf(i, after(i, k)) by { run_end(i, k); assert(i.skip(0) =~= i); run_le(i, k); }
    assert forall|i: Seq<char>, k: int, m: int| #![trigger after(after(i, k), m)] sub(k, m) implies after(after(i, k), m) == after(i, m) by { after_sub(i, k, m); }
    assert forall|i: Seq<char>, k: int| #![trigger after(i.skip(1), k)] i.len() > 0 && cls(k, i[0]) implies after(i.skip(1), k) == after(i, k) by { reveal_with_fuel(run, 2); run_le(i.skip(1), k); assert(i.skip(1).skip(run(i.skip(1), k)) =~= i.skip(run(i, k))); }
    assert forall|i: Seq<char>, j: Seq<char>, k: int| #![trigger suf(i, j), after(j, k)] suf(i, j) implies suf(i, after(j, k)) by { run_le(j, k); assert(j.skip(run(j, k)) =~= i.skip(i.len() - j.len() + run(j, k))); }
    assert forall|i: Seq<char>, j: Seq<char>| #![trigger suf(i, j), j.skip(1)] suf(i, j) && j.len() > 0 implies suf(i, j.skip(1)) by { assert(j.skip(1) =~= i.skip(i.len() - j.len() + 1)); }
    assert forall|i: Seq<char>, j: Seq<char>, p: Seq<char>| #![trigger suf(i, j), tg(j, p)] suf(i, j) && tg(j, p) is Some implies suf(i, tg(j, p)->0) by { assert(j.skip(p.len() as int) =~= i.skip(i.len() - j.len() + p.len())); }
    assert forall|i: Seq<char>| #![trigger suf(i, i)] suf(i, i) by { assert(i.skip(0) =~= i); }
}
/// texts that start differently
pub proof fn tg_chars() ensures forall|i: Seq<char>, p: Seq<char>| #![trigger tg(i, p)] tg(i, p) is Some ==> p.len() <= i.len() && (p.len() > 0 ==> i[0] == p[0]) && (p.len() > 1 ==> i[1] == p[1]) && (p.len() > 2 ==> i[2] == p[2]) { reveal(tg); }
/// how the keywords that head a type start
pub proof fn heads()
    ensures "enum"@.len() == 4, "enum"@[0] == 'e', "struct"@.len() == 6, "struct"@[0] == 's', "union"@.len() == 5, "union"@[0] == 'u', "union"@[1] == 'n', "void"@.len() == 4, "void"@[0] == 'v',
        "opaque"@.len() == 6, "opaque"@[0] == 'o', "string"@.len() == 6, "string"@[0] == 's', "string"@[2] == 'r', "string"@[3] == 'i', "struct"@[3] == 'u'
{ reveal_strlit("enum"); reveal_strlit("struct"); reveal_strlit("union"); reveal_strlit("void"); reveal_strlit("opaque"); reveal_strlit("string"); }
pub type R<'a> = Result<(&'a str, &'a str), NomErr>;
pub open spec fn zero(i: Seq<char>, k: int, r: R) -> bool { match r { Ok((rest, v)) => rest@ == after(i, k) && rest@.len() == i.len() - run(i, k) && 0 <= run(i, k) && v@ == i.take(run(i, k)), Err(_) => false } }
pub open spec fn one(i: Seq<char>, k: int, r: R) -> bool { match r { Ok((rest, v)) => rest@ == after(i, k) && rest@.len() == i.len() - run(i, k) && run(i, k) > 0 && v@ == i.take(run(i, k)), Err(e) => e is Error && run(i, k) == 0 } }
#[verifier::external_body] pub fn multispace0<'a>(i: &'a str) -> (r: R<'a>) ensures zero(i@, 0, r) { unimplemented!() }
#[verifier::external_body] pub fn multispace1<'a>(i: &'a str) -> (r: R<'a>) ensures one(i@, 0, r) { unimplemented!() }
#[verifier::external_body] pub fn alpha0<'a>(i: &'a str) -> (r: R<'a>) ensures zero(i@, 1, r) { unimplemented!() }
#[verifier::external_body] pub fn alpha1<'a>(i: &'a str) -> (r: R<'a>) ensures one(i@, 1, r) { unimplemented!() }
#[verifier::external_body] pub fn alphanumeric0<'a>(i: &'a str) -> (r: R<'a>) ensures zero(i@, 2, r) { unimplemented!() }
#[verifier::external_body] pub fn alphanumeric1<'a>(i: &'a str) -> (r: R<'a>) ensures one(i@, 2, r) { unimplemented!() }
#[verifier::external_body] pub fn digit0<'a>(i: &'a str) -> (r: R<'a>) ensures zero(i@, 3, r) { unimplemented!() }
#[verifier::external_body] pub fn digit1<'a>(i: &'a str) -> (r: R<'a>) ensures one(i@, 3, r) { unimplemented!() }
#[verifier::external_body] pub fn hex_digit0<'a>(i: &'a str) -> (r: R<'a>) ensures zero(i@, 4, r) { unimplemented!() }
#[verifier::external_body] pub fn hex_digit1<'a>(i: &'a str) -> (r: R<'a>) ensures one(i@, 4, r) { unimplemented!() }
#[verifier::external_body] pub fn oct_digit0<'a>(i: &'a str) -> (r: R<'a>) ensures zero(i@, 5, r) { unimplemented!() }
#[verifier::external_body] pub fn oct_digit1<'a>(i: &'a str) -> (r: R<'a>) ensures one(i@, 5, r) { unimplemented!() }
#[verifier::external_body] pub fn space0<'a>(i: &'a str) -> (r: R<'a>) ensures zero(i@, 7, r) { unimplemented!() }
#[verifier::external_body] pub fn space1<'a>(i: &'a str) -> (r: R<'a>) ensures one(i@, 7, r) { unimplemented!() }
/// the line ends with the text, "\n" or "\r\n" (not with a "\r" alone)
#[verifier::opaque]
pub open spec fn eol_ok(i: Seq<char>) -> bool { let r = after(i, 8); r.len() == 0 || eol(r) > 0 }
#[verifier::opaque]
pub open spec fn eol(i: Seq<char>) -> int { if i.len() > 0 && i[0] == '\n' { 1 } else if i.len() > 1 && i[0] == '\r' && i[1] == '\n' { 2 } else { 0 } }
#[verifier::external_body] pub fn not_line_ending<'a>(i: &'a str) -> (r: R<'a>)
    ensures match r { Ok((rest, v)) => eol_ok(i@) && v@ == i@.take(run(i@, 8)) && rest@ == after(i@, 8) && rest@.len() <= i@.len(), Err(e) => e is Error && !eol_ok(i@) } { unimplemented!() }
#[verifier::external_body] pub fn line_ending<'a>(i: &'a str) -> (r: R<'a>)
    ensures match r { Ok((rest, v)) => eol(i@) > 0 && v@ == i@.take(eol(i@)) && rest@ == i@.skip(eol(i@)) && rest@.len() < i@.len(), Err(e) => e is Error && eol(i@) == 0 } { unimplemented!() }
#[verifier::external_body] pub fn eof<'a>(i: &'a str) -> (r: R<'a>) ensures match r { Ok((rest, v)) => i@.len() == 0 && rest@ == i@ && v@ == i@, Err(e) => e is Error && i@.len() > 0 } { unimplemented!() }
#[verifier::external_body] pub fn rest<'a>(i: &'a str) -> (r: R<'a>) ensures match r { Ok((rest, v)) => rest@.len() == 0 && v@ == i@, Err(_) => false } { unimplemented!() }
#[verifier::external_body] pub fn tag<'a>(t: &str, i: &'a str) -> (r: R<'a>)
    ensures match r { Ok((rest, v)) => tg(i@, t@) == Some(rest@) && v@ == t@ && rest@.len() == i@.len() - t@.len(), Err(e) => e is Error && tg(i@, t@) is None } { unimplemented!() }
#[verifier::external_body] pub fn take_until<'a>(t: &str, i: &'a str) -> (r: R<'a>)
    ensures match r { Ok((rest, v)) => from(i@, t@) == Some(rest@) && v@ == i@.take(first(i@, t@)->0) && rest@.len() <= i@.len(), Err(e) => e is Error && from(i@, t@) is None } { unimplemented!() }
#[verifier::external_body] pub fn one_of<'a>(t: &str, i: &'a str) -> (r: Result<(&'a str, char), NomErr>)
    ensures match r { Ok((rest, v)) => i@.len() > 0 && t@.contains(i@[0]) && v == i@[0] && rest@ == i@.skip(1), Err(e) => e is Error && !(i@.len() > 0 && t@.contains(i@[0])) } { unimplemented!() }
#[verifier::external_body] pub fn none_of<'a>(t: &str, i: &'a str) -> (r: Result<(&'a str, char), NomErr>)
    ensures match r { Ok((rest, v)) => i@.len() > 0 && !t@.contains(i@[0]) && v == i@[0] && rest@ == i@.skip(1), Err(e) => e is Error && !(i@.len() > 0 && !t@.contains(i@[0])) } { unimplemented!() }
#[verifier::external_body] pub fn char<'a>(t: char, i: &'a str) -> (r: Result<(&'a str, char), NomErr>)
    ensures match r { Ok((rest, v)) => i@.len() > 0 && t == i@[0] && v == t && rest@ == i@.skip(1), Err(e) => e is Error && !(i@.len() > 0 && t == i@[0]) } { unimplemented!() }
/// the part of i before r, a rest of i
#[verifier::external_body] pub fn recognized<'a>(i: &'a str, r: &'a str) -> (v: &'a str) requires suf(i@, r@) ensures v@ == before(i@, r@) { unimplemented!() }
#[verifier::external_body] pub fn vx_same_len(a: &str, b: &str) -> (r: bool) ensures r == (a@.len() == b@.len()) { unimplemented!() }
#[verifier::external_body] pub fn vx_empty(a: &str) -> (r: bool) ensures r == (a@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn unknown<'a, T>(i: &'a str) -> (r: Result<(&'a str, T), NomErr>) { unimplemented!() }
}
