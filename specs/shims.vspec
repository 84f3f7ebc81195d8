@@comment
Trusted layer: contracts assumed for the Rust standard library functions the verified code calls. Every
`external_body` below is an assumption, listed in the evidence.
@@root
pub type Bytes = vstd::seq::Seq<u8>;

pub mod wire {
use vstd::prelude::*;
/// RFC 4506 big-endian words
pub open spec fn be32(v: u32) -> Seq<u8> {
    seq![(v / 0x1000000) as u8, (v / 0x10000 % 0x100) as u8, (v / 0x100 % 0x100) as u8, (v % 0x100) as u8]
}
pub open spec fn be64(v: u64) -> Seq<u8> { be32((v / 0x1_0000_0000) as u32) + be32((v % 0x1_0000_0000) as u32) }
pub open spec fn de32(s: Seq<u8>) -> u32 {
    (s[0] as int * 0x1000000 + s[1] as int * 0x10000 + s[2] as int * 0x100 + s[3] as int) as u32
}
pub open spec fn de64(s: Seq<u8>) -> u64 { (de32(s) as int * 0x1_0000_0000 + de32(s.skip(4)) as int) as u64 }
pub open spec fn u_of_i32(v: i32) -> u32 { if v >= 0 { v as u32 } else { (v as int + 0x1_0000_0000) as u32 } }
pub open spec fn i_of_u32(v: u32) -> i32 { if v < 0x8000_0000 { v as i32 } else { (v as int - 0x1_0000_0000) as i32 } }
pub open spec fn u_of_i64(v: i64) -> u64 { if v >= 0 { v as u64 } else { (v as int + 0x1_0000_0000_0000_0000) as u64 } }
pub open spec fn i_of_u64(v: u64) -> i64 { if v < 0x8000_0000_0000_0000 { v as i64 } else { (v as int - 0x1_0000_0000_0000_0000) as i64 } }
pub uninterp spec fn f32_bits(v: f32) -> u32;
pub uninterp spec fn f64_bits(v: f64) -> u64;
pub open spec fn padlen(n: int) -> int { (4 - n % 4) % 4 }
pub open spec fn pad(n: int) -> Seq<u8> { Seq::new(padlen(n) as nat, |i: int| 0u8) }

pub open spec fn de16(s: Seq<u8>) -> u16 { (s[0] as int * 0x100 + s[1] as int) as u16 }
pub open spec fn be16(v: u16) -> Seq<u8> { seq![(v / 0x100) as u8, (v % 0x100) as u8] }

pub broadcast proof fn lemma_skip_skip<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn lemma_skip_take<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b)
{ assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
pub proof fn lemma_add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub proof fn lemma_empty_add(a: Seq<u8>) ensures Seq::<u8>::empty() + a == a { assert(Seq::<u8>::empty() + a =~= a); }
pub proof fn lemma_add_empty(a: Seq<u8>) ensures a + Seq::<u8>::empty() == a { assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast group group_seq { lemma_skip_skip, lemma_skip_take }
pub broadcast proof fn lemma_de_be32(v: u32, t: Seq<u8>)
    ensures #[trigger] de32(be32(v) + t) == v
{
    let s = be32(v) + t;
    assert(s[0] == (v / 0x1000000) as u8 && s[1] == (v / 0x10000 % 0x100) as u8 && s[2] == (v / 0x100 % 0x100) as u8 && s[3] == (v % 0x100) as u8);
}
pub proof fn lemma_digits(a: u8, b: u8, c: u8, d: u8, v: u32)
    requires v == (a as int * 0x1000000 + b as int * 0x10000 + c as int * 0x100 + d as int) as u32
    ensures (v / 0x1000000) as u8 == a, (v / 0x10000 % 0x100) as u8 == b, (v / 0x100 % 0x100) as u8 == c, (v % 0x100) as u8 == d
{
    let (a4, b4, c4, d4) = (a as u32, b as u32, c as u32, d as u32);
    assert(v == a4 * 0x1000000 + b4 * 0x10000 + c4 * 0x100 + d4);
    assert(a4 <= 255 && b4 <= 255 && c4 <= 255 && d4 <= 255 && v == add(add(mul(a4, 0x1000000), mul(b4, 0x10000)), add(mul(c4, 0x100), d4)) ==>
        v / 0x1000000 == a4 && v / 0x10000 % 0x100 == b4 && v / 0x100 % 0x100 == c4 && v % 0x100 == d4) by (bit_vector);
}
pub proof fn lemma_be_de32(s: Seq<u8>)
    requires s.len() >= 4
    ensures be32(de32(s)) == s.take(4)
{
    lemma_digits(s[0], s[1], s[2], s[3], de32(s));
    assert(be32(de32(s)) =~= s.take(4));
}
pub broadcast proof fn lemma_de_be64(v: u64, t: Seq<u8>)
    ensures #[trigger] de64(be64(v) + t) == v
{
    let h = (v / 0x1_0000_0000) as u32;
    let l = (v % 0x1_0000_0000) as u32;
    assert(be64(v) + t =~= be32(h) + (be32(l) + t));
    lemma_de_be32(h, be32(l) + t);
    assert((be32(h) + (be32(l) + t)).skip(4) =~= be32(l) + t);
    lemma_de_be32(l, t);
}
pub proof fn lemma_signed()
    ensures forall|v: i32| i_of_u32(#[trigger] u_of_i32(v)) == v, forall|v: i64| i_of_u64(#[trigger] u_of_i64(v)) == v,
        forall|v: u32| u_of_i32(#[trigger] i_of_u32(v)) == v, forall|v: u64| u_of_i64(#[trigger] i_of_u64(v)) == v,
{}
}

pub mod vx {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::wire::*;
pub use std::marker::PhantomData;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T)
    requires false
{ panic!() }
#[verifier::external_body]
pub fn vx_format() -> (r: String) { String::new() }

#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }

#[verifier::external_body]
pub fn vx_string(a: &str) -> (r: String) ensures r@ == a@ { a.to_string() }
#[verifier::external_body]
pub fn vx_array<T, const N: usize>(v: Vec<T>) -> (r: [T; N]) requires v@.len() == N ensures r@ == v@ { match v.try_into() { Ok(x) => x, Err(_) => panic!() } }

pub trait VxBe<const N: usize>: Sized {
    spec fn be(self) -> Seq<u8>;
    spec fn debe(s: Seq<u8>) -> Self;
    spec fn okbe(s: Seq<u8>, v: Self) -> bool;
    fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.be();
    fn vx_from_be_bytes(b: [u8; N]) -> (r: Self) ensures Self::okbe(b@, r);
    fn vx_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == self.be().reverse();
    fn vx_from_le_bytes(b: [u8; N]) -> (r: Self) ensures Self::okbe(b@.reverse(), r);
}
macro_rules! vxbe { ($t:ty, $n:literal, $fb:expr, $fd:expr) => { verus! {
impl VxBe<$n> for $t {
    open spec fn be(self) -> Seq<u8> { $fb(self) }
    open spec fn debe(s: Seq<u8>) -> Self { $fd(s) }
    open spec fn okbe(s: Seq<u8>, v: Self) -> bool { v == $fd(s) }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; $n]) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; $n]) -> (r: Self) { <$t>::from_be_bytes(b) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; $n]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; $n]) -> (r: Self) { <$t>::from_le_bytes(b) }
} } } }
vxbe!(u32, 4, (|v: u32| be32(v)), (|s: Seq<u8>| de32(s)));
vxbe!(i32, 4, (|v: i32| be32(u_of_i32(v))), (|s: Seq<u8>| i_of_u32(de32(s))));
vxbe!(u64, 8, (|v: u64| be64(v)), (|s: Seq<u8>| de64(s)));
vxbe!(i64, 8, (|v: i64| be64(u_of_i64(v))), (|s: Seq<u8>| i_of_u64(de64(s))));
vxbe!(u16, 2, (|v: u16| be16(v)), (|s: Seq<u8>| de16(s)));
impl VxBe<4> for f32 {
    open spec fn be(self) -> Seq<u8> { be32(f32_bits(self)) }
    open spec fn debe(s: Seq<u8>) -> Self { arbitrary() }
    open spec fn okbe(s: Seq<u8>, v: Self) -> bool { f32_bits(v) == de32(s) }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: Self) { f32::from_be_bytes(b) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> (r: Self) { f32::from_le_bytes(b) }
}
impl VxBe<8> for f64 {
    open spec fn be(self) -> Seq<u8> { be64(f64_bits(self)) }
    open spec fn debe(s: Seq<u8>) -> Self { arbitrary() }
    open spec fn okbe(s: Seq<u8>, v: Self) -> bool { f64_bits(v) == de64(s) }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: Self) { f64::from_be_bytes(b) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> (r: Self) { f64::from_le_bytes(b) }
}

pub trait VxFrom<T>: Sized {
    spec fn from_rel(e: T, r: Self) -> bool;
    fn vx_from(e: T) -> (r: Self) ensures Self::from_rel(e, r);
}
pub trait VxTryFrom<T>: Sized {
    type Error;
    spec fn try_rel(e: T, r: Result<Self, Self::Error>) -> bool;
    fn vx_try_from(e: T) -> (r: Result<Self, Self::Error>) ensures Self::try_rel(e, r);
}
pub trait VxTryInto<T: VxTryFrom<Self>>: Sized {
    fn vx_try_into(self) -> (r: Result<T, <T as VxTryFrom<Self>>::Error>) ensures T::try_rel(self, r);
}
impl<S, T: VxTryFrom<S>> VxTryInto<T> for S {
    fn vx_try_into(self) -> (r: Result<T, <T as VxTryFrom<Self>>::Error>) { T::vx_try_from(self) }
}
macro_rules! tryint { ($($a:ty => $b:ty),*) => { $( verus! {
impl VxTryFrom<$a> for $b {
    type Error = core::num::TryFromIntError;
    open spec fn try_rel(e: $a, r: Result<Self, Self::Error>) -> bool {
        if <$b>::MIN as int <= e as int && e as int <= <$b>::MAX as int { r is Ok && (r->Ok_0) as int == e as int } else { r is Err }
    }
    #[verifier::external_body]
    fn vx_try_from(e: $a) -> (r: Result<Self, Self::Error>) { <$b as core::convert::TryFrom<$a>>::try_from(e) }
}
} )* } }
tryint!(u32 => i32, u32 => u8, u32 => u16, u32 => usize, u32 => i8, u32 => i16, i32 => u32, i32 => usize, i32 => i8, i32 => i16, i32 => u8, i32 => u16, i32 => u64,
 usize => u32, usize => i32, usize => u64, u64 => u32, u64 => usize, u64 => i32, i64 => i32, i64 => u32, u16 => u8, i16 => i8, i64 => usize, i64 => u64, u64 => i64, isize => i32, i32 => isize);
macro_rules! fromint { ($($a:ty => $b:ty),*) => { $( verus! {
impl VxFrom<$a> for $b {
    open spec fn from_rel(e: $a, r: Self) -> bool { r as int == e as int }
    #[verifier::external_body]
    fn vx_from(e: $a) -> (r: Self) { <$b as core::convert::From<$a>>::from(e) }
}
} )* } }
fromint!(u8 => u32, u16 => u32, i8 => i32, i16 => i32, u32 => u64, i32 => i64, u8 => u16, u8 => u64, u16 => u64, u8 => i32, u16 => i32, u32 => i64, u8 => usize, u16 => usize);
impl VxFrom<bool> for u32 {
    open spec fn from_rel(e: bool, r: Self) -> bool { r == if e { 1u32 } else { 0u32 } }
    #[verifier::external_body]
    fn vx_from(e: bool) -> (r: Self) { u32::from(e) }
}
impl VxFrom<char> for u32 {
    open spec fn from_rel(e: char, r: Self) -> bool { r == e as u32 }
    #[verifier::external_body]
    fn vx_from(e: char) -> (r: Self) { u32::from(e) }
}
pub trait VxInto<T>: Sized where T: VxFrom<Self> {
    fn vx_into(self) -> (r: T) ensures T::from_rel(self, r);
}
impl<S, T: VxFrom<S>> VxInto<T> for S {
    fn vx_into(self) -> (r: T) { T::vx_from(self) }
}
impl<'a, const N: usize> VxTryFrom<&'a [u8]> for [u8; N] {
    type Error = core::array::TryFromSliceError;
    open spec fn try_rel(e: &'a [u8], r: Result<Self, Self::Error>) -> bool {
        if e@.len() == N { r is Ok && (r->Ok_0)@ == e@ } else { r is Err }
    }
    #[verifier::external_body]
    fn vx_try_from(e: &'a [u8]) -> (r: Result<Self, Self::Error>) { <[u8; N] as core::convert::TryFrom<&'a [u8]>>::try_from(e) }
}
impl<const N: usize> VxTryFrom<Vec<u8>> for [u8; N] {
    type Error = Vec<u8>;
    open spec fn try_rel(e: Vec<u8>, r: Result<Self, Self::Error>) -> bool {
        if e@.len() == N { r is Ok && (r->Ok_0)@ == e@ } else { r is Err }
    }
    #[verifier::external_body]
    fn vx_try_from(e: Vec<u8>) -> (r: Result<Self, Self::Error>) { <[u8; N] as core::convert::TryFrom<Vec<u8>>>::try_from(e) }
}
pub trait VxAsRef<T: ?Sized> {
    spec fn ref_rel(&self, r: &T) -> bool;
    fn vx_as_ref(&self) -> (r: &T) ensures self.ref_rel(r);
}

impl<T> VxAsRef<[T]> for Vec<T> {
    open spec fn ref_rel(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T, const N: usize> VxAsRef<[T]> for [T; N] {
    open spec fn ref_rel(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[T]) { self.as_slice() }
}
impl<'a, T, X: VxAsRef<T> + ?Sized> VxAsRef<T> for &'a X where T: ?Sized {
    open spec fn ref_rel(&self, r: &T) -> bool { (**self).ref_rel(r) }
    fn vx_as_ref(&self) -> (r: &T) { (**self).vx_as_ref() }
}
pub open spec fn scalar_value(c: u32) -> bool { c < 0xD800 || (0xE000 <= c && c <= 0x10FFFF) }
#[verifier::external_body]
pub fn vx_char_from_u32(c: u32) -> (r: Option<char>)
    ensures r is Some <==> scalar_value(c), r is Some ==> r->Some_0 as u32 == c
{ char::from_u32(c) }
#[verifier::external_body]
pub fn vx_from_utf8<'a>(v: &'a [u8]) -> (r: Result<&'a str, core::str::Utf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> encode_utf8((r->Ok_0)@) == v@
{ core::str::from_utf8(v) }
#[verifier::external_body]
pub fn vx_string_from_utf8(v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> encode_utf8((r->Ok_0)@) == v@
{ String::from_utf8(v) }

#[verifier::external_body]
pub fn vx_from_elem<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cloned(x, #[trigger] r@[i])
{ vec![x; n] }

/// reservations made while decoding may not depend on announced lengths: only up to a constant
pub spec const VX_RESERVE: int = 0x10000;
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vx_with_capacity_bounded<T>(n: usize) -> (r: Vec<T>) requires n <= VX_RESERVE ensures r@ == Seq::<T>::empty() { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vx_from_elem_bounded<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    requires n <= VX_RESERVE
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cloned(x, #[trigger] r@[i])
{ vec![x; n] }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxIter<T> { v: std::vec::IntoIter<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn vx_has_next(&self) -> (r: bool) ensures r == (self.rest().len() > 0) { self.v.len() > 0 }
    #[verifier::external_body]
    pub fn vx_take(&mut self) -> (r: T)
        requires old(self).rest().len() > 0
        ensures r == old(self).rest()[0], final(self).rest() == old(self).rest().skip(1)
    { self.v.next().unwrap() }
}
pub trait VxIntoIter: Sized {
    type Item;
    spec fn items(self) -> Seq<Self::Item>;
    fn vx_into_iter(self) -> (r: VxIter<Self::Item>) ensures r.rest() == self.items();
}
impl<T> VxIntoIter for VxIter<T> {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self.rest() }
    fn vx_into_iter(self) -> (r: VxIter<T>) { proof { let _ = <Self as VxIntoIter>::items(arbitrary()); } self }
}
impl<T> VxIntoIter for Vec<T> {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) { VxIter { v: self.into_iter() } }
}
impl<T, const N: usize> VxIntoIter for [T; N] {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) { VxIter { v: self.into_iter().collect::<Vec<T>>().into_iter() } }
}
impl<'a, T> VxIntoIter for &'a [T] {
    type Item = &'a T;
    open spec fn items(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a T>) { VxIter { v: self.iter().collect::<Vec<&'a T>>().into_iter() } }
}
impl<'a, T> VxIntoIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn items(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a T>) { VxIter { v: self.iter().collect::<Vec<&'a T>>().into_iter() } }
}
macro_rules! vxrange { ($($t:ty),*) => { $( verus! {
impl VxIntoIter for core::ops::Range<$t> {
    type Item = $t;
    open spec fn items(self) -> Seq<$t> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as $t) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<$t>) { VxIter { v: self.collect::<Vec<$t>>().into_iter() } }
}
} )* } }
vxrange!(usize, u32, u64);

#[verifier::external_body]
pub fn vx_fill_zero(n: usize) -> (r: Vec<u8>) ensures r@ == Seq::new(n as nat, |i: int| 0u8) { vec![0u8; n] }

pub trait VxSlice<T> {
    spec fn sv(&self) -> Seq<T>;
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy ensures r@ == self.sv();
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn vx_chunks_mut(&mut self, n: usize) -> (r: VxIter<&mut [T]>)
        requires n > 0
        ensures
            r.rest().len() == (old(self).sv().len() + n - 1) / (n as int),
            forall|i: int| 0 <= i < r.rest().len() ==> (*#[trigger] r.rest()[i])@ == old(self).sv().subrange(i * n, if (i + 1) * n <= old(self).sv().len() { (i + 1) * n } else { old(self).sv().len() as int });
    fn vx_chunks(&self, n: usize) -> (r: VxIter<&[T]>)
        requires n > 0
        ensures
            r.rest().len() == (self.sv().len() + n - 1) / (n as int),
            forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] r.rest()[i])@ == self.sv().subrange(i * n, if (i + 1) * n <= self.sv().len() { (i + 1) * n } else { self.sv().len() as int });
    fn vx_swap_with_slice(&mut self, o: &mut [T])
        requires old(self).sv().len() == old(o)@.len()
        ensures final(self).sv() == old(o)@, final(o)@ == old(self).sv();
    fn vx_copy_from_slice(&mut self, o: &[T]) where T: Copy
        requires old(self).sv().len() == o@.len()
        ensures final(self).sv() == o@;
}
impl<T> VxSlice<T> for [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { self.to_vec() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body] fn vx_chunks_mut(&mut self, n: usize) -> (r: VxIter<&mut [T]>) { VxIter { v: self.chunks_mut(n).collect::<Vec<&mut [T]>>().into_iter() } }
    #[verifier::external_body] fn vx_chunks(&self, n: usize) -> (r: VxIter<&[T]>) { VxIter { v: self.chunks(n).collect::<Vec<&[T]>>().into_iter() } }
    #[verifier::external_body] fn vx_swap_with_slice(&mut self, o: &mut [T]) { self.swap_with_slice(o) }
    #[verifier::external_body] fn vx_copy_from_slice(&mut self, o: &[T]) where T: Copy { self.copy_from_slice(o) }
}
macro_rules! vxint { ($($t:ty),*) => { $( verus! {
impl VxInt for $t {
    open spec fn iv(self) -> int { self as int }
    open spec fn imax() -> int { <$t>::MAX as int }
    open spec fn imin() -> int { <$t>::MIN as int }
    #[verifier::external_body] fn vx_min(self, n: Self) -> (r: Self) { core::cmp::Ord::min(self, n) }
    #[verifier::external_body] fn vx_max(self, n: Self) -> (r: Self) { core::cmp::Ord::max(self, n) }
    #[verifier::external_body] fn vx_checked_sub(self, n: Self) -> (r: Option<Self>) { self.checked_sub(n) }
    #[verifier::external_body] fn vx_checked_add(self, n: Self) -> (r: Option<Self>) { self.checked_add(n) }
    #[verifier::external_body] fn vx_saturating_sub(self, n: Self) -> (r: Self) { self.saturating_sub(n) }
    #[verifier::external_body] fn vx_saturating_add(self, n: Self) -> (r: Self) { self.saturating_add(n) }
}
} )* } }
pub trait VxInt: Sized {
    spec fn iv(self) -> int;
    spec fn imax() -> int;
    spec fn imin() -> int;
    fn vx_min(self, n: Self) -> (r: Self) ensures r == if self.iv() <= n.iv() { self } else { n };
    fn vx_max(self, n: Self) -> (r: Self) ensures r == if self.iv() >= n.iv() { self } else { n };
    fn vx_checked_sub(self, n: Self) -> (r: Option<Self>) ensures Self::imin() <= self.iv() - n.iv() <= Self::imax() ==> r is Some && r->Some_0.iv() == self.iv() - n.iv(), !(Self::imin() <= self.iv() - n.iv() <= Self::imax()) ==> r is None;
    fn vx_checked_add(self, n: Self) -> (r: Option<Self>) ensures Self::imin() <= self.iv() + n.iv() <= Self::imax() ==> r is Some && r->Some_0.iv() == self.iv() + n.iv(), !(Self::imin() <= self.iv() + n.iv() <= Self::imax()) ==> r is None;
    fn vx_saturating_sub(self, n: Self) -> (r: Self) ensures r.iv() == (if self.iv() - n.iv() < Self::imin() { Self::imin() } else if self.iv() - n.iv() > Self::imax() { Self::imax() } else { self.iv() - n.iv() });
    fn vx_saturating_add(self, n: Self) -> (r: Self) ensures r.iv() == (if self.iv() + n.iv() < Self::imin() { Self::imin() } else if self.iv() + n.iv() > Self::imax() { Self::imax() } else { self.iv() + n.iv() });
}
vxint!(usize, u64, u32, u16, u8, i64, i32);
pub trait VxUint: Sized {
    spec fn uv(self) -> int;
    spec fn umax() -> int;
    fn vx_div_ceil(self, n: Self) -> (r: Self) requires n.uv() > 0 ensures r.uv() == (self.uv() + n.uv() - 1) / n.uv();
    fn vx_next_multiple_of(self, n: Self) -> (r: Self) requires n.uv() > 0, (self.uv() + n.uv() - 1) / n.uv() * n.uv() <= Self::umax() ensures r.uv() == (self.uv() + n.uv() - 1) / n.uv() * n.uv();
    fn vx_is_multiple_of(self, n: Self) -> (r: bool) requires n.uv() > 0 ensures r == (self.uv() % n.uv() == 0);
    fn vx_rem_euclid(self, n: Self) -> (r: Self) requires n.uv() > 0 ensures r.uv() == self.uv() % n.uv();
    fn vx_wrapping_neg(self) -> (r: Self) ensures r.uv() == if self.uv() == 0 { 0 } else { Self::umax() + 1 - self.uv() };
    fn vx_abs_diff(self, n: Self) -> (r: Self) ensures r.uv() == if self.uv() >= n.uv() { self.uv() - n.uv() } else { n.uv() - self.uv() };
}
macro_rules! vxuint { ($($t:ty),*) => { $( verus! {
impl VxUint for $t {
    open spec fn uv(self) -> int { self as int }
    open spec fn umax() -> int { <$t>::MAX as int }
    #[verifier::external_body] fn vx_div_ceil(self, n: Self) -> (r: Self) { self.div_ceil(n) }
    #[verifier::external_body] fn vx_next_multiple_of(self, n: Self) -> (r: Self) { self.next_multiple_of(n) }
    #[verifier::external_body] fn vx_is_multiple_of(self, n: Self) -> (r: bool) { self % n == 0 }
    #[verifier::external_body] fn vx_rem_euclid(self, n: Self) -> (r: Self) { self % n }
    #[verifier::external_body] fn vx_wrapping_neg(self) -> (r: Self) { self.wrapping_neg() }
    #[verifier::external_body] fn vx_abs_diff(self, n: Self) -> (r: Self) { self.abs_diff(n) }
}
} )* } }
vxuint!(usize, u64, u32);
pub trait VxVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn vx_extend_from_slice(&mut self, o: &[T]) where T: Copy ensures final(self).vv() == old(self).vv() + o@;
    fn vx_extend<I: VxIntoIter>(&mut self, o: I) where I: VxItems<T>, T: Copy ensures final(self).vv() == old(self).vv() + o.vals();
    fn vx_reserve(&mut self, n: usize) ensures final(self).vv() == old(self).vv();
    fn vx_reserve_bounded(&mut self, n: usize) requires n <= VX_RESERVE ensures final(self).vv() == old(self).vv();
    fn vx_resize_bounded(&mut self, n: usize, x: T) where T: Copy
        requires n <= VX_RESERVE
        ensures final(self).vv() == if n <= old(self).vv().len() { old(self).vv().take(n as int) } else { old(self).vv() + Seq::new((n - old(self).vv().len()) as nat, |i: int| x) };
    fn vx_resize(&mut self, n: usize, x: T) where T: Copy
        ensures final(self).vv() == if n <= old(self).vv().len() { old(self).vv().take(n as int) } else { old(self).vv() + Seq::new((n - old(self).vv().len()) as nat, |i: int| x) };
}
/// items of an iterable of T or &T, by value
pub trait VxItems<T> { spec fn vals(self) -> Seq<T>; fn vx_collect(self) -> (r: Vec<T>) ensures r@ == self.vals(); }
impl<'a, T: Copy> VxItems<T> for &'a [T] { open spec fn vals(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_collect(self) -> (r: Vec<T>) { self.to_vec() } }
impl<'a, T: Copy> VxItems<T> for &'a Vec<T> { open spec fn vals(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_collect(self) -> (r: Vec<T>) { self.to_vec() } }
impl<T> VxItems<T> for Vec<T> { open spec fn vals(self) -> Seq<T> { self@ } fn vx_collect(self) -> (r: Vec<T>) { proof { let _ = <Self as VxItems<T>>::vals(arbitrary()); } self } }
impl<T, const N: usize> VxItems<T> for [T; N] { open spec fn vals(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_collect(self) -> (r: Vec<T>) { self.into_iter().collect() } }
impl<'a, T: Copy, const N: usize> VxItems<T> for &'a [T; N] { open spec fn vals(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_collect(self) -> (r: Vec<T>) { self.to_vec() } }
impl<'a, T, const N: usize> VxIntoIter for &'a [T; N] {
    type Item = &'a T;
    open spec fn items(self) -> Seq<&'a T> { Seq::new(N as nat, |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<&'a T>) { VxIter { v: self.iter().collect::<Vec<&'a T>>().into_iter() } }
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_extend_from_slice(&mut self, o: &[T]) where T: Copy { self.extend_from_slice(o) }
    #[verifier::external_body] fn vx_extend<I: VxIntoIter>(&mut self, o: I) where I: VxItems<T>, T: Copy { self.extend(o.vx_collect()) }
    #[verifier::external_body] fn vx_reserve(&mut self, n: usize) { self.reserve(n) }
    #[verifier::external_body] fn vx_reserve_bounded(&mut self, n: usize) { self.reserve(n) }
    #[verifier::external_body] fn vx_resize_bounded(&mut self, n: usize, x: T) where T: Copy { self.resize(n, x) }
    #[verifier::external_body] fn vx_resize(&mut self, n: usize, x: T) where T: Copy { self.resize(n, x) }
}
}
