@@comment
Sequences that are walked through, generated code
@@root
pub mod vxs {
use vstd::prelude::*;
use crate::vx::*;
/// the elements of a vector or a slice, by reference or by value
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxRefs<'a, T> { v: &'a [T] }
impl<'a, T> View for VxRefs<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<'a, T> VxRefs<'a, T> {
    #[verifier::external_body] pub fn vx_len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    pub fn none(&self) -> (r: Option<&'a T>) ensures r is None { None }
    #[verifier::external_body] pub fn at(&self, k: usize) -> (r: &'a T) requires k < self@.len() ensures *r == self@[k as int] { unimplemented!() }
    #[verifier::external_body] pub fn item(&self, k: usize) -> (r: &'a T) requires k < self@.len() ensures *r == self@[k as int] { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxVals<T> { v: std::vec::Vec<T> }
impl<T> View for VxVals<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VxVals<T> {
    #[verifier::external_body] pub fn vx_len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn item(&self, k: usize) -> (r: T) requires k < self@.len() ensures r == self@[k as int] { unimplemented!() }
}
pub trait VxSeq<T> { spec fn elems(&self) -> Seq<T>; fn vx_seq<'a>(&'a self) -> (r: VxRefs<'a, T>) ensures r@ == self.elems(); }
impl<T> VxSeq<T> for [T] { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_seq<'a>(&'a self) -> (r: VxRefs<'a, T>) { unimplemented!() } }
impl<T> VxSeq<T> for VxVec<T> { open spec fn elems(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_seq<'a>(&'a self) -> (r: VxRefs<'a, T>) { unimplemented!() } }
pub trait VxItems: Sized { type It; spec fn items(self, r: Self::It) -> bool; fn vx_items(self) -> (r: Self::It) ensures self.items(r); }
impl<T> VxItems for VxVec<T> { type It = VxVals<T>; open spec fn items(self, r: VxVals<T>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_items(self) -> (r: VxVals<T>) { unimplemented!() } }
impl<'a, T> VxItems for &'a VxVec<T> { type It = VxRefs<'a, T>; open spec fn items(self, r: VxRefs<'a, T>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_items(self) -> (r: VxRefs<'a, T>) { unimplemented!() } }
impl<'a, T> VxItems for &'a [T] { type It = VxRefs<'a, T>; open spec fn items(self, r: VxRefs<'a, T>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_items(self) -> (r: VxRefs<'a, T>) { unimplemented!() } }
impl<T> core::ops::Deref for VxVec<T> {
    type Target = [T];
    #[verifier::external_body] fn deref(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
}
/// generated code
#[verifier::external_body]
pub struct VxTokens { v: u8 }
#[verifier::external_body] pub fn vx_tokens() -> VxTokens { unimplemented!() }
impl Clone for VxTokens { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// an identifier of the generated code
#[verifier::external_body]
pub struct VxIdent { v: u8 }
impl View for VxIdent { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for VxIdent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn word_char(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_' }
/// an ASCII identifier
pub open spec fn word(s: Seq<char>) -> bool { s.len() > 0 && !('0' <= s[0] <= '9') && forall|j: int| 0 <= j < s.len() ==> word_char(#[trigger] s[j]) }
/// no raw identifier can be one of these
pub open spec fn rawless(s: Seq<char>) -> bool { s == "crate"@ || s == "self"@ || s == "super"@ || s == "Self"@ || s == "_"@ }
pub open spec fn ident_ok(s: Seq<char>) -> bool { word(s) || s.len() > 2 && s.take(2) == "r#"@ && word(s.skip(2)) && !rawless(s.skip(2)) }
/// panics if the text is no identifier
#[verifier::external_body] pub fn vx_format_ident(s: VxString) -> (r: VxIdent) requires ident_ok(s@) ensures r@ == s@ { unimplemented!() }
// ---- texts
pub open spec fn lo(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u8) + 32) as u8 as char } else { c } }
pub open spec fn up(c: char) -> char { if 'a' <= c <= 'z' { ((c as u8) - 32) as u8 as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |j: int| lo(s[j])) }
pub open spec fn upper(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |j: int| up(s[j])) }
/// every character is one byte
pub open spec fn ascii(s: Seq<char>) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) as u32 <= 127 }
/// pieces put together
pub open spec fn glued(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { glued(p.drop_last()) + p.last() } }
/// s without the character c
pub open spec fn without(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() == c { without(s.drop_last(), c) } else { without(s.drop_last(), c).push(s.last()) } }
impl VxString {
    #[verifier::external_body] pub fn push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
}
/// what can be put at the end of a text
pub trait VxPiece: Sized { spec fn piece(&self) -> Seq<char>; }
impl VxPiece for char { open spec fn piece(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPiece for &'a str { open spec fn piece(&self) -> Seq<char> { self@ } }
impl VxPiece for VxString { open spec fn piece(&self) -> Seq<char> { self@ } }
pub struct VxPush;
impl VxPush { #[verifier::external_body] pub fn vx_push<P: VxPiece>(s: &mut VxString, p: P) ensures final(s)@ == old(s)@ + p.piece() { unimplemented!() } }
#[verifier::external_body]
pub struct VxChars { v: u8 }
impl View for VxChars { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxChars {
    #[verifier::external_body] pub fn vx_len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn item(&self, k: usize) -> (r: char) requires k < self@.len() ensures r == self@[k as int] { unimplemented!() }
}
#[verifier::external_body] pub fn vx_chars(s: &str) -> (r: VxChars) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub struct VxPieces<'a> { v: &'a u8 }
impl<'a> View for VxPieces<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> VxPieces<'a> {
    #[verifier::external_body] pub fn vx_len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn item(&self, k: usize) -> (r: &'a str) requires k < self@.len() ensures r@ == self@[k as int] { unimplemented!() }
}
/// s without the characters that are flagged
pub open spec fn unflagged(s: Seq<char>, f: Seq<bool>) -> Seq<char> decreases s.len() { if s.len() == 0 || f.len() != s.len() { Seq::empty() } else if f.last() { unflagged(s.drop_last(), f.drop_last()) } else { unflagged(s.drop_last(), f.drop_last()).push(s.last()) } }
#[verifier::external_body] pub fn vx_split_char<'a>(s: &'a str, c: char) -> (r: VxPieces<'a>) ensures glued(r@) == without(s@, c) { unimplemented!() }
#[verifier::external_body] pub fn vx_split<'a>(s: &'a str, f: &VxVec<bool>) -> (r: VxPieces<'a>) requires f@.len() == s@.len() ensures glued(r@) == unflagged(s@, f@) { unimplemented!() }
#[verifier::external_body] pub fn vx_split_inclusive<'a>(s: &'a str, f: &VxVec<bool>) -> (r: VxPieces<'a>) requires f@.len() == s@.len() ensures glued(r@) == s@ { unimplemented!() }
#[verifier::external_body]
pub struct VxMatches<'a> { v: &'a u8 }
impl<'a> View for VxMatches<'a> { type V = Seq<int>; uninterp spec fn view(&self) -> Seq<int>; }
impl<'a> VxMatches<'a> {
    #[verifier::external_body] pub fn vx_len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn item(&self, k: usize) -> (r: (usize, &'a str)) requires k < self@.len() ensures r.0 == self@[k as int] { unimplemented!() }
}
/// places in increasing order
pub open spec fn places(m: Seq<int>, s: Seq<char>, f: Seq<bool>) -> bool { (forall|j: int| 0 <= j < m.len() ==> 0 <= #[trigger] m[j] < s.len() && f[m[j]]) && forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] m[i] < #[trigger] m[j] }
#[verifier::external_body] pub fn vx_match_indices<'a>(s: &'a str, f: &VxVec<bool>) -> (r: VxMatches<'a>) requires f@.len() == s@.len() ensures ascii(s@) ==> places(r@, s@, f@) { unimplemented!() }
/// parts of a text whose characters are one byte each
pub struct VxSlice;
impl VxSlice {
    #[verifier::external_body] pub fn vx_between<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str) requires ascii(s@), a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body] pub fn vx_from_on<'a>(s: &'a str, a: usize) -> (r: &'a str) requires ascii(s@), a <= s@.len() ensures r@ == s@.skip(a as int) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_first_char(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_contains_char(s: &str, c: char) -> (b: bool) ensures b == s@.contains(c) { unimplemented!() }
#[verifier::external_body] pub fn vx_starts_with_char(s: &str, c: char) -> (b: bool) ensures b == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body] pub fn vx_ends_with_char(s: &str, c: char) -> (b: bool) ensures b == (s@.len() > 0 && s@.last() == c) { unimplemented!() }
#[verifier::external_body] pub fn vx_as_str<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }
pub uninterp spec fn other_lower(c: char) -> bool;
pub uninterp spec fn other_upper(c: char) -> bool;
pub uninterp spec fn other_numeric(c: char) -> bool;
pub uninterp spec fn other_alphabetic(c: char) -> bool;
pub open spec fn unicode_lower(c: char) -> bool { if c as u32 <= 127 { 'a' <= c <= 'z' } else { other_lower(c) } }
pub open spec fn unicode_upper(c: char) -> bool { if c as u32 <= 127 { 'A' <= c <= 'Z' } else { other_upper(c) } }
pub open spec fn unicode_numeric(c: char) -> bool { if c as u32 <= 127 { '0' <= c <= '9' } else { other_numeric(c) } }
pub open spec fn unicode_alphabetic(c: char) -> bool { if c as u32 <= 127 { alphabetic(c) } else { other_alphabetic(c) } }
#[verifier::external_body] pub fn vx_is_lowercase(c: char) -> (b: bool) ensures b == unicode_lower(c) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_uppercase(c: char) -> (b: bool) ensures b == unicode_upper(c) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_numeric(c: char) -> (b: bool) ensures b == unicode_numeric(c) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_alphabetic(c: char) -> (b: bool) ensures b == unicode_alphabetic(c) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_alphanumeric(c: char) -> (b: bool) ensures b == (unicode_alphabetic(c) || unicode_numeric(c)) { unimplemented!() }
pub trait VxCase {
    type Out;
    spec fn lowered(&self, r: Self::Out) -> bool;
    spec fn uppered(&self, r: Self::Out) -> bool;
    fn vx_to_ascii_lowercase(&self) -> (r: Self::Out) ensures self.lowered(r);
    fn vx_to_ascii_uppercase(&self) -> (r: Self::Out) ensures self.uppered(r);
}
impl VxCase for char { type Out = char; open spec fn lowered(&self, r: char) -> bool { r == lo(*self) } open spec fn uppered(&self, r: char) -> bool { r == up(*self) } #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: char) { unimplemented!() } #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() } }
impl VxCase for str { type Out = VxString; open spec fn lowered(&self, r: VxString) -> bool { r@ == lower(self@) } open spec fn uppered(&self, r: VxString) -> bool { r@ == upper(self@) } #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: VxString) { unimplemented!() } #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: VxString) { unimplemented!() } }
impl VxCase for VxString { type Out = VxString; open spec fn lowered(&self, r: VxString) -> bool { r@ == lower(self@) } open spec fn uppered(&self, r: VxString) -> bool { r@ == upper(self@) } #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: VxString) { unimplemented!() } #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: VxString) { unimplemented!() } }
impl<'a, A: VxCase + ?Sized> VxCase for &'a A { type Out = A::Out; open spec fn lowered(&self, r: A::Out) -> bool { (**self).lowered(r) } open spec fn uppered(&self, r: A::Out) -> bool { (**self).uppered(r) } #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: A::Out) { unimplemented!() } #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: A::Out) { unimplemented!() } }
/// questions about a character
pub open spec fn alphabetic(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
pub open spec fn numeric(c: char) -> bool { '0' <= c <= '9' }
pub trait VxAsk {
    spec fn ch(&self) -> char;
    fn vx_is_ascii_alphabetic(&self) -> (b: bool) ensures b == alphabetic(self.ch());
    fn vx_is_ascii_digit(&self) -> (b: bool) ensures b == numeric(self.ch());
    fn vx_is_ascii_alphanumeric(&self) -> (b: bool) ensures b == (alphabetic(self.ch()) || numeric(self.ch()));
    fn vx_is_ascii_uppercase(&self) -> (b: bool) ensures b == ('A' <= self.ch() <= 'Z');
    fn vx_is_ascii_lowercase(&self) -> (b: bool) ensures b == ('a' <= self.ch() <= 'z');
    fn vx_is_lowercase(&self) -> (b: bool) ensures b == unicode_lower(self.ch());
    fn vx_is_uppercase(&self) -> (b: bool) ensures b == unicode_upper(self.ch());
    fn vx_is_numeric(&self) -> (b: bool) ensures b == unicode_numeric(self.ch());
    fn vx_is_alphabetic(&self) -> (b: bool) ensures b == unicode_alphabetic(self.ch());
    fn vx_is_alphanumeric(&self) -> (b: bool) ensures b == (unicode_alphabetic(self.ch()) || unicode_numeric(self.ch()));
}
impl VxAsk for char {
    open spec fn ch(&self) -> char { *self }
    #[verifier::external_body] fn vx_is_ascii_alphabetic(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_digit(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_alphanumeric(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_uppercase(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_lowercase(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_lowercase(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_uppercase(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_numeric(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_alphabetic(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_alphanumeric(&self) -> (b: bool) { unimplemented!() }
}
impl<'a> VxAsk for &'a char {
    open spec fn ch(&self) -> char { **self }
    #[verifier::external_body] fn vx_is_ascii_alphabetic(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_digit(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_alphanumeric(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_uppercase(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_lowercase(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_lowercase(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_uppercase(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_numeric(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_alphabetic(&self) -> (b: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_alphanumeric(&self) -> (b: bool) { unimplemented!() }
}
// ---- numbers, order
pub trait VxInt: Sized {
    type U;
    spec fn gap(self, o: Self, r: Self::U) -> bool;
    spec fn plus(self, o: Self, r: Self) -> bool;
    spec fn less(self, o: Self, r: Self) -> bool;
    fn vx_abs_diff(self, o: Self) -> (r: Self::U) ensures self.gap(o, r);
    fn vx_saturating_add(self, o: Self) -> (r: Self) ensures self.plus(o, r);
    fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures self.less(o, r);
}
impl VxInt for i32 {
    type U = u32;
    open spec fn gap(self, o: i32, r: u32) -> bool { r == (if self >= o { self - o } else { o - self }) }
    open spec fn plus(self, o: i32, r: i32) -> bool { r == (if self + o > i32::MAX { i32::MAX as int } else if self + o < i32::MIN { i32::MIN as int } else { self + o }) }
    open spec fn less(self, o: i32, r: i32) -> bool { r == (if self - o > i32::MAX { i32::MAX as int } else if self - o < i32::MIN { i32::MIN as int } else { self - o }) }
    #[verifier::external_body] fn vx_abs_diff(self, o: i32) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_add(self, o: i32) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_sub(self, o: i32) -> (r: i32) { unimplemented!() }
}
impl VxInt for u32 {
    type U = u32;
    open spec fn gap(self, o: u32, r: u32) -> bool { r == (if self >= o { self - o } else { o - self }) }
    open spec fn plus(self, o: u32, r: u32) -> bool { r == (if self + o > u32::MAX { u32::MAX as int } else if self + o < u32::MIN { u32::MIN as int } else { self + o }) }
    open spec fn less(self, o: u32, r: u32) -> bool { r == (if self - o > u32::MAX { u32::MAX as int } else if self - o < u32::MIN { u32::MIN as int } else { self - o }) }
    #[verifier::external_body] fn vx_abs_diff(self, o: u32) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_add(self, o: u32) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_sub(self, o: u32) -> (r: u32) { unimplemented!() }
}
impl VxInt for i64 {
    type U = u64;
    open spec fn gap(self, o: i64, r: u64) -> bool { r == (if self >= o { self - o } else { o - self }) }
    open spec fn plus(self, o: i64, r: i64) -> bool { r == (if self + o > i64::MAX { i64::MAX as int } else if self + o < i64::MIN { i64::MIN as int } else { self + o }) }
    open spec fn less(self, o: i64, r: i64) -> bool { r == (if self - o > i64::MAX { i64::MAX as int } else if self - o < i64::MIN { i64::MIN as int } else { self - o }) }
    #[verifier::external_body] fn vx_abs_diff(self, o: i64) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_add(self, o: i64) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_sub(self, o: i64) -> (r: i64) { unimplemented!() }
}
impl VxInt for u64 {
    type U = u64;
    open spec fn gap(self, o: u64, r: u64) -> bool { r == (if self >= o { self - o } else { o - self }) }
    open spec fn plus(self, o: u64, r: u64) -> bool { r == (if self + o > u64::MAX { u64::MAX as int } else if self + o < u64::MIN { u64::MIN as int } else { self + o }) }
    open spec fn less(self, o: u64, r: u64) -> bool { r == (if self - o > u64::MAX { u64::MAX as int } else if self - o < u64::MIN { u64::MIN as int } else { self - o }) }
    #[verifier::external_body] fn vx_abs_diff(self, o: u64) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_add(self, o: u64) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_sub(self, o: u64) -> (r: u64) { unimplemented!() }
}
impl VxInt for usize {
    type U = usize;
    open spec fn gap(self, o: usize, r: usize) -> bool { r == (if self >= o { self - o } else { o - self }) }
    open spec fn plus(self, o: usize, r: usize) -> bool { r == (if self + o > usize::MAX { usize::MAX as int } else if self + o < usize::MIN { usize::MIN as int } else { self + o }) }
    open spec fn less(self, o: usize, r: usize) -> bool { r == (if self - o > usize::MAX { usize::MAX as int } else if self - o < usize::MIN { usize::MIN as int } else { self - o }) }
    #[verifier::external_body] fn vx_abs_diff(self, o: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_add(self, o: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_sub(self, o: usize) -> (r: usize) { unimplemented!() }
}
/// decimal digits
pub open spec fn digits(n: int) -> Seq<char> decreases n { if n < 10 { seq![(48 + (if n < 0 { 0 } else { n })) as u8 as char] } else { digits(n / 10).push((48 + n % 10) as u8 as char) } }
pub open spec fn decimal(n: int) -> Seq<char> { if n < 0 { seq!['-'] + digits(-n) } else { digits(n) } }
pub proof fn digits_are(n: int) requires n >= 0 ensures digits(n).len() > 0, forall|j: int| 0 <= j < digits(n).len() ==> numeric(#[trigger] digits(n)[j]) decreases n { if n >= 10 { digits_are(n / 10); } }
impl VxToString for VxTokens { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) { unimplemented!() } }
impl<A: VxEq<B>, B> VxEq<Option<B>> for Option<A> { open spec fn seq(&self, o: &Option<B>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.seq(&b), (None, None) => true, _ => false } } #[verifier::external_body] fn vx_eq(&self, o: &Option<B>) -> (b: bool) { unimplemented!() } }
impl VxToString for i32 { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) { unimplemented!() } }
impl VxEq<i32> for i32 { open spec fn seq(&self, o: &i32) -> bool { *self == *o } fn vx_eq(&self, o: &i32) -> (b: bool) { *self == *o } }
impl VxToString for u32 { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) { unimplemented!() } }
impl VxEq<u32> for u32 { open spec fn seq(&self, o: &u32) -> bool { *self == *o } fn vx_eq(&self, o: &u32) -> (b: bool) { *self == *o } }
impl VxToString for i64 { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) { unimplemented!() } }
impl VxEq<i64> for i64 { open spec fn seq(&self, o: &i64) -> bool { *self == *o } fn vx_eq(&self, o: &i64) -> (b: bool) { *self == *o } }
impl VxToString for u64 { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) { unimplemented!() } }
impl VxEq<u64> for u64 { open spec fn seq(&self, o: &u64) -> bool { *self == *o } fn vx_eq(&self, o: &u64) -> (b: bool) { *self == *o } }
impl VxToString for usize { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) { unimplemented!() } }
impl VxEq<usize> for usize { open spec fn seq(&self, o: &usize) -> bool { *self == *o } fn vx_eq(&self, o: &usize) -> (b: bool) { *self == *o } }
pub trait VxOrd { spec fn le(self, o: Self) -> bool; }
impl VxOrd for i32 { open spec fn le(self, o: i32) -> bool { self <= o } }
impl VxOrd for u32 { open spec fn le(self, o: u32) -> bool { self <= o } }
impl VxOrd for i64 { open spec fn le(self, o: i64) -> bool { self <= o } }
impl VxOrd for u64 { open spec fn le(self, o: u64) -> bool { self <= o } }
impl VxOrd for usize { open spec fn le(self, o: usize) -> bool { self <= o } }
/// where the element that is at place k after sorting was before
pub uninterp spec fn from_place<T, K>(v: Seq<T>, keys: Seq<K>, k: int) -> int;
pub open spec fn sorted_by<T, K: VxOrd>(v: Seq<T>, keys: Seq<K>, r: Seq<T>) -> bool {
    &&& r.len() == v.len()
    &&& forall|k: int| 0 <= k < v.len() ==> 0 <= from_place(v, keys, k) < v.len() && #[trigger] r[k] == v[from_place(v, keys, k)]
    &&& forall|j: int, k: int| #![trigger r[j], r[k]] 0 <= j < k < v.len() ==> from_place(v, keys, j) != from_place(v, keys, k) && keys[from_place(v, keys, j)].le(keys[from_place(v, keys, k)])
}
#[verifier::external_body] pub fn vx_sort_by_key<T, K: VxOrd>(v: &mut VxVec<T>, keys: VxVec<K>) requires keys@.len() == old(v)@.len() ensures sorted_by(old(v)@, keys@, final(v)@) { unimplemented!() }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxWindows<'a, T> { v: &'a [T] }
impl<'a, T> View for VxWindows<'a, T> { type V = Seq<Seq<T>>; uninterp spec fn view(&self) -> Seq<Seq<T>>; }
impl<'a, T> VxWindows<'a, T> {
    #[verifier::external_body] pub fn vx_len(&self) -> (n: usize) ensures n == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn item(&self, k: usize) -> (r: &'a [T]) requires k < self@.len() ensures r@ == self@[k as int] { unimplemented!() }
}
/// panics for no elements at a time
#[verifier::external_body] pub fn vx_windows<'a, T>(s: &'a [T], n: usize) -> (r: VxWindows<'a, T>) requires n > 0 ensures r@ == Seq::new((if n <= s@.len() { s@.len() - n + 1 } else { 0 }) as nat, |k: int| s@.subrange(k, k + n)) { unimplemented!() }
}
@@module gen_code
broadcast use crate::vx::values;
