@@root
pub use crate::wire::*;
pub mod spec_ser {
use vstd::prelude::*;
use crate::wire::*;
/// a string or byte string of n bytes
pub open spec fn enc_bytes(b: Seq<u8>) -> Option<Seq<u8>> {
    if b.len() <= u32::MAX { Some(be32(b.len() as u32) + b + pad(b.len() as int)) } else { None }
}
/// the count in front of a variable-length sequence
pub open spec fn enc_len(n: Option<usize>) -> Option<Seq<u8>> {
    match n { Some(k) => if k <= u32::MAX { Some(be32(k as u32)) } else { None }, None => None }
}
/// an enum or union index
pub open spec fn enc_index(i: u32) -> Option<Seq<u8>> { if i <= i32::MAX { Some(be32(i)) } else { None } }
}
pub mod spec_de {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::wire::*;
use crate::error::Error;
use crate::serde::de::{Visitor, Ev, Deserialize};
pub open spec fn unopt<T>(r: Result<Option<T>, Error>) -> Result<T, Error> {
    match r { Ok(Some(x)) => Ok(x), Ok(None) => Err(Error::NotImplemented), Err(e) => Err(e) }
}
/// what decoding a string or byte string can report when input is missing: `k` bytes of content or of padding,
/// or of both together
pub open spec fn missing(i: Seq<u8>, e: Error) -> bool {
    let n = de32(i) as int;
    let p = padlen(n);
    let have = i.len() - 4;
    e == Error::NotEnoughData((n - have) as usize) || e == Error::NotEnoughData((n + p - have) as usize)
}
pub open spec fn content(i: Seq<u8>) -> Seq<u8> { i.subrange(4, 4 + de32(i) as int) }
pub open spec fn after(i: Seq<u8>) -> Seq<u8> { i.skip(4 + de32(i) as int + padlen(de32(i) as int)) }
pub open spec fn complete(i: Seq<u8>) -> bool { i.len() >= 4 + de32(i) as int + padlen(de32(i) as int) }
pub open spec fn str_rel(i: Seq<u8>, r: Result<&str, Error>, rest: Seq<u8>) -> bool {
    if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) }
    else if i.len() < 4 + de32(i) as int { r is Err && missing(i, r->Err_0) }
    else if !valid_utf8(content(i)) { r is Err }
    else if !complete(i) { r is Err && missing(i, r->Err_0) }
    else { r is Ok && encode_utf8((r->Ok_0)@) =~= content(i) && rest =~= after(i) }
}
pub open spec fn bytes_rel(i: Seq<u8>, r: Result<&[u8], Error>, rest: Seq<u8>) -> bool {
    if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) }
    else if !complete(i) { r is Err && missing(i, r->Err_0) }
    else { r is Ok && (r->Ok_0)@ =~= content(i) && rest =~= after(i) }
}
pub open spec fn de_str<'de, V: Visitor<'de>>(v: V, i: Seq<u8>, r: Result<V::Value, Error>, rest: Seq<u8>) -> bool {
    if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) }
    else if i.len() < 4 + de32(i) as int { r is Err && missing(i, r->Err_0) }
    else if !valid_utf8(content(i)) { r is Err }
    else if !complete(i) { r is Err && missing(i, r->Err_0) }
    else { exists|s: Seq<char>| encode_utf8(s) =~= content(i) && #[trigger] v.rel(Ev::Str(s), r) && rest =~= after(i) }
}
pub open spec fn de_bytes<'de, V: Visitor<'de>>(v: V, i: Seq<u8>, r: Result<V::Value, Error>, rest: Seq<u8>) -> bool {
    if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) }
    else if !complete(i) { r is Err && missing(i, r->Err_0) }
    else { v.rel(Ev::Bytes(content(i)), r) && rest =~= after(i) }
}
pub open spec fn from_rel<'de, T: Deserialize<'de>>(i: Seq<u8>, r: Result<T, Error>) -> bool {
    match r {
        Ok(v) => exists|rest: Seq<u8>| #[trigger] T::dec(i, Ok(v), rest) && rest.len() == 0,
        Err(e) => (exists|rest: Seq<u8>| #[trigger] T::dec(i, Err(e), rest))
            || (exists|v: T, rest: Seq<u8>| #[trigger] T::dec(i, Ok(v), rest) && rest.len() > 0 && e == Error::TrailingData(rest.len() as usize)),
    }
}
}
@@module ser
use crate::wire::*;
broadcast use crate::wire::group_seq;
@@module de
use crate::wire::*;
broadcast use crate::wire::group_seq;
@@bounded
de opaque::enumerate_u8 opaque::Visitor OpaqueVisitor opaque::fixed::deserialize opaque::variable::deserialize primitive::signed32::deserialize
@@root
/// these must NOT verify: they show that the assumed contracts are not contradictory
pub mod vx_canary {
use vstd::prelude::*;
use crate::wire::*;
use crate::vx::*;
broadcast use crate::wire::group_seq;
pub fn canary_de(i: &[u8], v: &mut Vec<u8>, d: &mut crate::de::Deserializer) ensures false
{
    let s = <String as crate::serde::Deserialize>::deserialize(d);
    let b = vx_from_utf8(i);
    let c = vx_char_from_u32(7);
    let n: Result<i8, core::num::TryFromIntError> = 300u32.vx_try_into();
    let k = 5usize.vx_div_ceil(4);
    v.vx_extend_from_slice(i);
    let it = v.as_mut_slice().vx_chunks_mut(4);
    proof { lemma_signed(); lemma_be_de32(seq![1u8, 2u8, 3u8, 4u8]); lemma_de_be64(5, Seq::<u8>::empty()); }
}
pub fn canary_ser(x: &str) ensures false
{
    let r = crate::ser::to_bytes(&(x, 5u32, Some(true)));
    let q = crate::de::from_bytes::<(String, Option<Vec<u16>>)>(x.as_bytes());
}
}
