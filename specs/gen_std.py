#!/usr/bin/env python3
"""Writes serde_std_gen.vspec: serde's own Serialize/Deserialize impls for the supported shapes, restated over
the crate's serializer and deserializer (client code of the contracts), with the round-trip lemmas of C12."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import derived
out=[]
w=out.append
w("""@@comment
GENERATED by gen_std.py
@@root
pub mod vxstd {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::wire::*;
use crate::error::Error;
use crate::vx::*;
use crate::serde::ser::*;
use crate::serde::de::*;
use crate::serde::{cat, emits};
use core::marker::PhantomData;

/// values of `Self` survive encoding followed by decoding, wherever they stand in the input
pub trait RT<'de>: Serialize + Deserialize<'de> {
    spec fn same(a: Self, b: Self) -> bool;
    proof fn rt(v: Self, e: Seq<u8>, tail: Seq<u8>, r: Result<Self, Error>, rest: Seq<u8>)
        requires v.enc() == Some(e), Self::dec(e + tail, r, rest)
        ensures r is Ok, Self::same(v, r->Ok_0), rest == tail;
}
pub proof fn lemma_skip<T>(a: Seq<T>, b: Seq<T>)
    ensures (a + b).skip(a.len() as int) == b, (a + b).take(a.len() as int) == a
{ assert((a + b).skip(a.len() as int) =~= b); assert((a + b).take(a.len() as int) =~= a); }
""")
SC=[("bool","Bool",4,None,"be32(if *self { 1u32 } else { 0u32 })"),
("i8","I8",4,"i_of_u32(de32(i))","be32(u_of_i32(*self as i32))"),("i16","I16",4,"i_of_u32(de32(i))","be32(u_of_i32(*self as i32))"),
("i32","I32",4,"i_of_u32(de32(i))","be32(u_of_i32(*self))"),("i64","I64",8,"i_of_u64(de64(i))","be64(u_of_i64(*self))"),
("u8","U8",4,"de32(i)","be32(*self as u32)"),("u16","U16",4,"de32(i)","be32(*self as u32)"),("u32","U32",4,"de32(i)","be32(*self)"),("u64","U64",8,"de64(i)","be64(*self)"),
("f32","F32",4,None,"be32(f32_bits(*self))"),("f64","F64",8,None,"be64(f64_bits(*self))"),("char","Char",4,None,"be32(*self as u32)")]
for t,K,n,src,enc in SC:
    if t=="bool": ok="(de32(i) == 0 ==> r == Ok::<bool, Error>(false) && rest == i.skip(4)) && (de32(i) == 1 ==> r == Ok::<bool, Error>(true) && rest == i.skip(4))"
    elif t in("f32","f64"): ok=f"r is Ok && {t}_bits(r->Ok_0) == {'de32' if n==4 else 'de64'}(i) && rest == i.skip({n})"
    elif t=="char": ok="if scalar_value(de32(i)) { r is Ok && r->Ok_0 as u32 == de32(i) && rest == i.skip(4) } else { r is Err }"
    elif t in("i8","i16","u8","u16"): ok=f"if {t}::MIN as int <= {src} as int && {src} as int <= {t}::MAX as int {{ r == Ok::<{t}, Error>({src} as {t}) && rest == i.skip(4) }} else {{ r is Err }}"
    else: ok=f"r == Ok::<{t}, Error>({src}) && rest == i.skip({n})"
    same="f32_bits(a) == f32_bits(b)" if t=="f32" else "f64_bits(a) == f64_bits(b)" if t=="f64" else "a == b"
    w(f"""
pub struct V_{t};
impl<'de> Visitor<'de> for V_{t} {{
    type Value = {t};
    open spec fn pre(self, ev: Ev) -> bool {{ ev is {K} }}
    open spec fn rel(self, ev: Ev, r: Result<{t}, Error>) -> bool {{ r == Ok::<{t}, Error>(ev->{K}_0) }}
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<{t}, Error>, rest: Seq<u8>) -> bool {{ false }}
    fn visit_{t}(self, v: {t}) -> (r: Result<{t}, Error>) {{ Ok(v) }}
    FILL
}}
impl Serialize for {t} {{
    open spec fn enc(&self) -> Option<Seq<u8>> {{ Some({enc}) }}
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) {{ s.serialize_{t}(*self) }}
}}
impl<'de> Deserialize<'de> for {t} {{
    open spec fn dec(i: Seq<u8>, r: Result<{t}, Error>, rest: Seq<u8>) -> bool {{
        if i.len() < {n} {{ r is Err && r->Err_0 == Error::NotEnoughData(({n} - i.len()) as usize) }} else {{ {ok} }}
    }}
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<{t}, Error>) {{ d.deserialize_{t}(V_{t}) }}
}}
impl<'de> RT<'de> for {t} {{
    open spec fn same(a: {t}, b: {t}) -> bool {{ {same} }}
    proof fn rt(v: {t}, e: Seq<u8>, tail: Seq<u8>, r: Result<{t}, Error>, rest: Seq<u8>) {{
        broadcast use {{lemma_de_be32, lemma_de_be64}};
        lemma_signed();
        lemma_skip(e, tail);
        {"lemma_char(v);" if t=="char" else ""}
        {"if r is Ok { lemma_char_inj(v, r->Ok_0); }" if t=="char" else ""}
    }}
}}
""")
FILLS={"Bool":"bool","Char":"char"}
w("""
pub proof fn lemma_char(c: char) ensures scalar_value(c as u32) {
    assert(c as u32 <= 0x10FFFF && !(0xD800 <= c as u32 && c as u32 <= 0xDFFF)) ;
}
pub proof fn lemma_char_inj(a: char, b: char) requires a as u32 == b as u32 ensures a == b {}

// ---- strings and byte strings
pub struct V_String;
impl<'de> Visitor<'de> for V_String {
    type Value = String;
    open spec fn pre(self, ev: Ev) -> bool { ev is Str }
    open spec fn rel(self, ev: Ev, r: Result<String, Error>) -> bool { r is Ok && r->Ok_0@ == ev->Str_0 }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<String, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_str(self, v: &str) -> (r: Result<String, Error>) { Ok(vx_string(v)) }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<String, Error>) { Ok(vx_string(v)) }
    FILL
}
impl Serialize for str {
    open spec fn enc(&self) -> Option<Seq<u8>> { crate::spec_ser::enc_bytes(encode_utf8(self@)) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { s.serialize_str(self) }
}
impl Serialize for String {
    open spec fn enc(&self) -> Option<Seq<u8>> { crate::spec_ser::enc_bytes(encode_utf8(self@)) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { s.serialize_str(self.as_str()) }
}
impl<'de> Deserialize<'de> for String {
    open spec fn dec(i: Seq<u8>, r: Result<String, Error>, rest: Seq<u8>) -> bool { crate::spec_de::de_str(V_String, i, r, rest) }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<String, Error>) { d.deserialize_string(V_String) }
}
pub proof fn lemma_bytes(b: Seq<u8>, tail: Seq<u8>)
    requires b.len() <= u32::MAX
    ensures ({ let i = be32(b.len() as u32) + b + pad(b.len() as int) + tail;
        de32(i) == b.len() && i.len() >= 4 && crate::spec_de::complete(i) && crate::spec_de::content(i) == b && crate::spec_de::after(i) == tail })
{
    let n = b.len() as int;
    let i = be32(n as u32) + b + pad(n) + tail;
    assert(i =~= be32(n as u32) + (b + pad(n) + tail));
    lemma_de_be32(n as u32, b + pad(n) + tail);
    assert(crate::spec_de::content(i) =~= b);
    assert(crate::spec_de::after(i) =~= tail);
}
impl<'de> RT<'de> for String {
    open spec fn same(a: String, b: String) -> bool { a@ == b@ }
    proof fn rt(v: String, e: Seq<u8>, tail: Seq<u8>, r: Result<String, Error>, rest: Seq<u8>) {
        let b = encode_utf8(v@);
        lemma_bytes(b, tail);
        vstd::utf8::encode_utf8_valid_utf8(v@);
        assert(e + tail =~= be32(b.len() as u32) + b + pad(b.len() as int) + tail);
        let s = choose|s: Seq<char>| encode_utf8(s) == b && #[trigger] V_String.rel(Ev::Str(s), r) && rest == crate::spec_de::after(e + tail);
        vstd::utf8::encode_utf8_decode_utf8(v@);
        vstd::utf8::encode_utf8_decode_utf8(s);
    }
}
/// a byte string (serialize_bytes / deserialize_byte_buf)
pub struct VxByteBuf { pub b: Vec<u8> }
pub struct V_Bytes;
impl<'de> Visitor<'de> for V_Bytes {
    type Value = VxByteBuf;
    open spec fn pre(self, ev: Ev) -> bool { ev is Bytes }
    open spec fn rel(self, ev: Ev, r: Result<VxByteBuf, Error>) -> bool { r is Ok && r->Ok_0.b@ == ev->Bytes_0 }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<VxByteBuf, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<VxByteBuf, Error>) { Ok(VxByteBuf { b: v.vx_to_vec() }) }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<VxByteBuf, Error>) { Ok(VxByteBuf { b: v.vx_to_vec() }) }
    FILL
}
impl Serialize for VxByteBuf {
    open spec fn enc(&self) -> Option<Seq<u8>> { crate::spec_ser::enc_bytes(self.b@) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { s.serialize_bytes(self.b.as_slice()) }
}
impl<'de> Deserialize<'de> for VxByteBuf {
    open spec fn dec(i: Seq<u8>, r: Result<VxByteBuf, Error>, rest: Seq<u8>) -> bool { crate::spec_de::de_bytes(V_Bytes, i, r, rest) }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<VxByteBuf, Error>) { d.deserialize_byte_buf(V_Bytes) }
}
impl<'de> RT<'de> for VxByteBuf {
    open spec fn same(a: VxByteBuf, b: VxByteBuf) -> bool { a.b@ == b.b@ }
    proof fn rt(v: VxByteBuf, e: Seq<u8>, tail: Seq<u8>, r: Result<VxByteBuf, Error>, rest: Seq<u8>) {
        lemma_bytes(v.b@, tail);
        assert(e + tail =~= be32(v.b@.len() as u32) + v.b@ + pad(v.b@.len() as int) + tail);
    }
}
// ---- unit, references, boxes
impl Serialize for () {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(Seq::<u8>::empty()) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { s.serialize_unit() }
}
pub struct V_Unit;
impl<'de> Visitor<'de> for V_Unit {
    type Value = ();
    open spec fn pre(self, ev: Ev) -> bool { ev is Unit }
    open spec fn rel(self, ev: Ev, r: Result<(), Error>) -> bool { r is Ok }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<(), Error>, rest: Seq<u8>) -> bool { false }
    fn visit_unit(self) -> (r: Result<(), Error>) { Ok(()) }
    FILL
}
impl<'de> Deserialize<'de> for () {
    open spec fn dec(i: Seq<u8>, r: Result<(), Error>, rest: Seq<u8>) -> bool { r is Ok && rest == i }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<(), Error>) { d.deserialize_unit(V_Unit) }
}
impl<'de> RT<'de> for () {
    open spec fn same(a: (), b: ()) -> bool { true }
    proof fn rt(v: (), e: Seq<u8>, tail: Seq<u8>, r: Result<(), Error>, rest: Seq<u8>) { assert(e + tail =~= tail); }
}
impl<'a, T: Serialize + ?Sized> Serialize for &'a T {
    open spec fn enc(&self) -> Option<Seq<u8>> { (**self).enc() }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { (**self).serialize(s) }
}
impl<T: Serialize> Serialize for Box<T> {
    open spec fn enc(&self) -> Option<Seq<u8>> { (**self).enc() }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { (**self).serialize(s) }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Box<T> {
    open spec fn dec(i: Seq<u8>, r: Result<Box<T>, Error>, rest: Seq<u8>) -> bool {
        match r { Ok(b) => T::dec(i, Ok(*b), rest), Err(e) => T::dec(i, Err(e), rest) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<Box<T>, Error>) { match T::deserialize(d) { Ok(x) => Ok(Box::new(x)), Err(e) => Err(e) } }
}
impl<'de, T: RT<'de>> RT<'de> for Box<T> {
    open spec fn same(a: Box<T>, b: Box<T>) -> bool { T::same(*a, *b) }
    proof fn rt(v: Box<T>, e: Seq<u8>, tail: Seq<u8>, r: Result<Box<T>, Error>, rest: Seq<u8>) {
        match r { Ok(b) => T::rt(*v, e, tail, Ok(*b), rest), Err(x) => T::rt(*v, e, tail, Err(x), rest) }
    }
}
// ---- options
impl<T: Serialize> Serialize for Option<T> {
    open spec fn enc(&self) -> Option<Seq<u8>> { match *self { Some(x) => cat(Some(be32(1)), x.enc()), None => Some(be32(0)) } }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { match self { Some(x) => s.serialize_some(x), None => s.serialize_none() } }
}
#[verifier::reject_recursive_types(T)]
pub struct V_Option<T> { m: PhantomData<T> }
pub open spec fn some_rel<'de, T: Deserialize<'de>>(i: Seq<u8>, r: Result<Option<T>, Error>, rest: Seq<u8>) -> bool {
    match r { Ok(o) => o is Some && T::dec(i, Ok(o->Some_0), rest), Err(e) => T::dec(i, Err(e), rest) }
}
impl<'de, T: Deserialize<'de>> Visitor<'de> for V_Option<T> {
    type Value = Option<T>;
    open spec fn pre(self, ev: Ev) -> bool { ev is None || ev is Some }
    open spec fn rel(self, ev: Ev, r: Result<Option<T>, Error>) -> bool { ev is None && r == Ok::<Option<T>, Error>(None) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<Option<T>, Error>, rest: Seq<u8>) -> bool { ev is Some && some_rel(input, r, rest) }
    fn visit_none(self) -> (r: Result<Option<T>, Error>) { Ok(None) }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Option<T>, Error>) { match T::deserialize(d) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
    FILL
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Option<T> {
    open spec fn dec(i: Seq<u8>, r: Result<Option<T>, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) }
        else { (de32(i) == 0 ==> r == Ok::<Option<T>, Error>(None) && rest == i.skip(4)) && (de32(i) == 1 ==> some_rel(i.skip(4), r, rest)) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<Option<T>, Error>) { d.deserialize_option(V_Option::<T> { m: PhantomData }) }
}
impl<'de, T: RT<'de>> RT<'de> for Option<T> {
    open spec fn same(a: Option<T>, b: Option<T>) -> bool { match (a, b) { (Some(x), Some(y)) => T::same(x, y), (None, None) => true, _ => false } }
    proof fn rt(v: Option<T>, e: Seq<u8>, tail: Seq<u8>, r: Result<Option<T>, Error>, rest: Seq<u8>) {
        match v {
            None => { lemma_de_be32(0, tail); lemma_skip(be32(0), tail); }
            Some(x) => {
                let ex = x.enc()->Some_0;
                assert(e + tail =~= be32(1) + (ex + tail));
                lemma_de_be32(1, ex + tail);
                lemma_skip(be32(1), ex + tail);
                match r { Ok(o) => { if o is Some { T::rt(x, ex, tail, Ok(o->Some_0), rest); } }, Err(k) => { T::rt(x, ex, tail, Err(k), rest); } }
            }
        }
    }
}
// ---- sequences
pub open spec fn enc_all<T: Serialize>(s: Seq<T>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(Seq::<u8>::empty()) } else { cat(enc_all(s.drop_last()), s.last().enc()) }
}
pub open spec fn enc_seq<T: Serialize>(s: Seq<T>) -> Option<Seq<u8>> { cat(crate::spec_ser::enc_len(if s.len() <= usize::MAX { Some(s.len() as usize) } else { None }), enc_all(s)) }
pub open spec fn dec_all<'de, T: Deserialize<'de>>(i: Seq<u8>, s: Seq<T>, rest: Seq<u8>) -> bool decreases s.len() {
    if s.len() == 0 { rest == i } else { exists|mid: Seq<u8>| dec_all(i, s.drop_last(), mid) && #[trigger] T::dec(mid, Ok(s.last()), rest) }
}
pub open spec fn dec_fail<'de, T: Deserialize<'de>>(i: Seq<u8>, n: nat, e: Error) -> bool {
    exists|s: Seq<T>, mid: Seq<u8>, rest: Seq<u8>| s.len() < n && #[trigger] dec_all(i, s, mid) && #[trigger] T::dec(mid, Err(e), rest)
}
pub open spec fn same_all<'de, T: RT<'de>>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] T::same(a[k], b[k]) }
pub proof fn lemma_enc_prefix<T: Serialize>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len(), enc_all(s) is Some
    ensures enc_all(s.take(k)) is Some
    decreases s.len() - k
{
    if k < s.len() {
        lemma_enc_prefix(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
    } else { assert(s.take(k) =~= s); }
}
/// the items encoded from k on
pub open spec fn enc_from<T: Serialize>(s: Seq<T>, k: int) -> Seq<u8> decreases s.len() - k {
    if k >= s.len() || k < 0 { Seq::<u8>::empty() } else { s[k].enc()->Some_0 + enc_from(s, k + 1) }
}
pub proof fn lemma_enc_from<T: Serialize>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len(), enc_all(s) is Some
    ensures enc_all(s)->Some_0 == enc_all(s.take(k))->Some_0 + enc_from(s, k), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).enc() is Some
    decreases s.len() - k
{
    if k < s.len() {
        lemma_enc_from(s, k + 1);
        lemma_enc_prefix(s, k + 1);
        lemma_enc_prefix(s, k);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
        assert(enc_all(s)->Some_0 =~= enc_all(s.take(k))->Some_0 + enc_from(s, k));
    } else {
        assert(s.take(k) =~= s);
        assert(enc_all(s)->Some_0 =~= enc_all(s)->Some_0 + enc_from(s, k));
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).enc() is Some by {
            lemma_enc_prefix(s, j + 1);
            assert(s.take(j + 1).last() == s[j]);
        }
    }
}
pub proof fn lemma_dec_all<'de, T: RT<'de>>(v: Seq<T>, tail: Seq<u8>, s: Seq<T>, rest: Seq<u8>)
    requires enc_all(v) is Some, s.len() <= v.len(), dec_all(enc_from(v, 0) + tail, s, rest)
    ensures rest == enc_from(v, s.len() as int) + tail, same_all(v.take(s.len() as int), s)
    decreases s.len()
{
    lemma_enc_from(v, 0);
    if s.len() > 0 {
        let n = s.len() as int;
        let p = s.drop_last();
        let mid = choose|mid: Seq<u8>| dec_all(enc_from(v, 0) + tail, p, mid) && #[trigger] T::dec(mid, Ok(s.last()), rest);
        lemma_dec_all(v, tail, p, mid);
        let e = v[n - 1].enc()->Some_0;
        assert(mid =~= e + (enc_from(v, n) + tail));
        T::rt(v[n - 1], e, enc_from(v, n) + tail, Ok(s.last()), rest);
        assert forall|k: int| 0 <= k < n implies #[trigger] T::same(v.take(n)[k], s[k]) by {
            if k < n - 1 { assert(T::same(v.take(n - 1)[k], p[k])); }
        }
    }
}
pub proof fn lemma_dec_nofail<'de, T: RT<'de>>(v: Seq<T>, tail: Seq<u8>, e: Error)
    requires enc_all(v) is Some
    ensures !dec_fail::<T>(enc_from(v, 0) + tail, v.len(), e)
{
    let i = enc_from(v, 0) + tail;
    if dec_fail::<T>(i, v.len(), e) {
        let (s, mid, rest) = choose|s: Seq<T>, mid: Seq<u8>, rest: Seq<u8>| s.len() < v.len() && #[trigger] dec_all(i, s, mid) && #[trigger] T::dec(mid, Err(e), rest);
        lemma_dec_all(v, tail, s, mid);
        lemma_enc_from(v, 0);
        let n = s.len() as int;
        let b = v[n].enc()->Some_0;
        assert(mid =~= b + (enc_from(v, n + 1) + tail));
        T::rt(v[n], b, enc_from(v, n + 1) + tail, Err(e), rest);
    }
}
impl<T: Serialize> Serialize for [T] {
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_seq(self@) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) {
        let ghost start = s.$output@;
        let ghost e0 = crate::spec_ser::enc_len(Some(self@.len() as usize));
        let ghost fin = *final(s);
        match s.serialize_seq(Some(self.len())) {
            Err(e) => Err(e),
            Ok(q) => {
                let mut q = q;
                let mut k: usize = 0;
                while k < self.len()
                    invariant k <= self@.len(), e0 is Some, enc_all(self@.take(k as int)) is Some,
                        (*q).$output@ == start + (e0->Some_0 + enc_all(self@.take(k as int))->Some_0), *final(q) == fin,
                    decreases self@.len() - k
                {
                    proof { assert(self@.take(k + 1).drop_last() =~= self@.take(k as int)); assert(self@.take(k + 1).last() == self@[k as int]); }
                    match <&mut $Serializer as SerializeSeq>::serialize_element(&mut q, &self[k]) {
                        Err(e) => { proof { if enc_all(self@) is Some { lemma_enc_prefix(self@, k + 1); } } return Err(e); }
                        Ok(_) => {}
                    }
                    k += 1;
                }
                proof { assert(self@.take(self@.len() as int) =~= self@); }
                <&mut $Serializer as SerializeSeq>::end(q)
            }
        }
    }
}
impl<T: Serialize> Serialize for Vec<T> {
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_seq(self@) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { self.as_slice().serialize(s) }
}
#[verifier::reject_recursive_types(T)]
pub struct V_Vec<T> { m: PhantomData<T> }
pub open spec fn vec_rel<'de, T: Deserialize<'de>>(n: nat, i: Seq<u8>, r: Result<Vec<T>, Error>, rest: Seq<u8>) -> bool {
    match r { Ok(v) => v@.len() == n && dec_all(i, v@, rest), Err(e) => dec_fail::<T>(i, n, e) }
}
impl<'de, T: Deserialize<'de>> Visitor<'de> for V_Vec<T> {
    type Value = Vec<T>;
    open spec fn pre(self, ev: Ev) -> bool { ev is Seq }
    open spec fn rel(self, ev: Ev, r: Result<Vec<T>, Error>) -> bool { false }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<Vec<T>, Error>, rest: Seq<u8>) -> bool { ev is Seq && vec_rel(ev->Seq_0, input, r, rest) }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Vec<T>, Error>) {
        let ghost n = seq.$count as nat;
        let ghost i = seq.$de.$input@;
        let ghost fin = *final(seq.$de);
        let mut seq = seq;
        let mut v: Vec<T> = Vec::new();
        #[verifier::loop_isolation(false)]
        loop
            invariant v@.len() + seq.$count == n, dec_all(i, v@, seq.$de.$input@), *final(seq.$de) == fin,
            decreases seq.$count
        {
            let ghost mid = seq.$de.$input@;
            match seq.next_element::<T>() {
                Err(e) => { proof { assert(dec_fail::<T>(i, n, e)); } return Err(e); }
                Ok(None) => { return Ok(v); }
                Ok(Some(x)) => {
                    proof { assert(v@.push(x).drop_last() =~= v@); assert(T::dec(mid, Ok(v@.push(x).last()), seq.$de.$input@)); }
                    v.push(x);
                }
            }
        }
    }
    FILL
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Vec<T> {
    open spec fn dec(i: Seq<u8>, r: Result<Vec<T>, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { vec_rel(de32(i) as nat, i.skip(4), r, rest) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<Vec<T>, Error>) { d.deserialize_seq(V_Vec::<T> { m: PhantomData }) }
}
impl<'de, T: RT<'de>> RT<'de> for Vec<T> {
    open spec fn same(a: Vec<T>, b: Vec<T>) -> bool { same_all(a@, b@) }
    proof fn rt(v: Vec<T>, e: Seq<u8>, tail: Seq<u8>, r: Result<Vec<T>, Error>, rest: Seq<u8>) {
        let n = v@.len();
        lemma_enc_from(v@, 0);
        assert(v@.take(0) =~= Seq::<T>::empty());
        let body = enc_from(v@, 0);
        assert(e + tail =~= be32(n as u32) + (body + tail));
        lemma_de_be32(n as u32, body + tail);
        lemma_skip(be32(n as u32), body + tail);
        match r {
            Ok(x) => { lemma_dec_all(v@, tail, x@, rest); assert(v@.take(n as int) =~= v@); assert(enc_from(v@, n as int) + tail =~= tail); }
            Err(x) => { lemma_dec_nofail::<T>(v@, tail, x); }
        }
    }
}
// ---- fixed-size arrays
impl<T: Serialize, const N: usize> Serialize for [T; N] {
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_all(self@) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) {
        let ghost start = s.$output@;
        let ghost fin = *final(s);
        match s.serialize_tuple(N) {
            Err(e) => Err(e),
            Ok(q) => {
                let mut q = q;
                let mut k: usize = 0;
                proof { assert(self@.take(0) =~= Seq::<T>::empty()); assert(q.$output@ =~= start + Seq::<u8>::empty()); }
                while k < N
                    invariant k <= N, self@.len() == N, enc_all(self@.take(k as int)) is Some,
                        (*q).$output@ == start + enc_all(self@.take(k as int))->Some_0, *final(q) == fin,
                    decreases N - k
                {
                    proof { assert(self@.take(k + 1).drop_last() =~= self@.take(k as int)); assert(self@.take(k + 1).last() == self@[k as int]); }
                    match <&mut $Serializer as SerializeTuple>::serialize_element(&mut q, &self[k]) {
                        Err(e) => { proof { if enc_all(self@) is Some { lemma_enc_prefix(self@, k + 1); } } return Err(e); }
                        Ok(_) => {}
                    }
                    proof { assert(q.$output@ =~= start + enc_all(self@.take(k + 1))->Some_0); }
                    k += 1;
                }
                proof { assert(self@.take(self@.len() as int) =~= self@); }
                <&mut $Serializer as SerializeTuple>::end(q)
            }
        }
    }
}
#[verifier::reject_recursive_types(T)]
pub struct V_Array<T, const N: usize> { m: PhantomData<T> }
pub open spec fn arr_rel<'de, T: Deserialize<'de>, const N: usize>(i: Seq<u8>, r: Result<[T; N], Error>, rest: Seq<u8>) -> bool {
    match r { Ok(v) => dec_all(i, v@, rest), Err(e) => dec_fail::<T>(i, N as nat, e) }
}
impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V_Array<T, N> {
    type Value = [T; N];
    open spec fn pre(self, ev: Ev) -> bool { ev == Ev::Seq(N as nat) }
    open spec fn rel(self, ev: Ev, r: Result<[T; N], Error>) -> bool { false }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<[T; N], Error>, rest: Seq<u8>) -> bool { ev is Seq && arr_rel::<T, N>(input, r, rest) }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<[T; N], Error>) {
        let v = V_Vec::<T> { m: PhantomData };
        match v.visit_seq(seq) { Ok(x) => Ok(vx_array(x)), Err(e) => Err(e) }
    }
    FILL
}
impl<'de, T: Deserialize<'de>, const N: usize> Deserialize<'de> for [T; N] {
    open spec fn dec(i: Seq<u8>, r: Result<[T; N], Error>, rest: Seq<u8>) -> bool { arr_rel::<T, N>(i, r, rest) }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<[T; N], Error>) { d.deserialize_tuple(N, V_Array::<T, N> { m: PhantomData }) }
}
impl<'de, T: RT<'de>, const N: usize> RT<'de> for [T; N] {
    open spec fn same(a: [T; N], b: [T; N]) -> bool { same_all(a@, b@) }
    proof fn rt(v: [T; N], e: Seq<u8>, tail: Seq<u8>, r: Result<[T; N], Error>, rest: Seq<u8>) {
        lemma_enc_from(v@, 0);
        assert(v@.take(0) =~= Seq::<T>::empty());
        assert(e =~= enc_from(v@, 0));
        match r {
            Ok(x) => { lemma_dec_all(v@, tail, x@, rest); assert(v@.take(N as int) =~= v@); assert(enc_from(v@, N as int) + tail =~= tail); }
            Err(x) => { lemma_dec_nofail::<T>(v@, tail, x); }
        }
    }
}
""")
# tuples
def tup(n):
    G=[f"T{k}" for k in range(n)]
    ty="("+", ".join(G)+("," if n==1 else "")+")"
    cats="Some(Seq::<u8>::empty())"
    for k in range(n): cats=f"cat({cats}, self.{k}.enc())"
    sb=", ".join(g+": Serialize" for g in G); db=", ".join(g+": Deserialize<'de>" for g in G); rb=", ".join(g+": RT<'de>" for g in G)
    fl=[(str(k),derived.plain(f"T{k}")) for k in range(n)]
    okrel=derived.ok_chain(fl, lambda f: f"v.{f}"); errel=derived.err_chain(fl)
    w(f"""
impl<{sb}> Serialize for {ty} {{
    open spec fn enc(&self) -> Option<Seq<u8>> {{ {cats} }}
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) {{
        match s.serialize_tuple({n}) {{ Err(e) => Err(e), Ok(q) => {{ let mut q = q;
            proof {{ assert(q.$output@ =~= q.$output@ + Seq::<u8>::empty()); }}""")
    for k in range(n):
        w(f"            match <&mut $Serializer as SerializeTuple>::serialize_element(&mut q, &self.{k}) {{ Err(e) => return Err(e), Ok(_) => {{}} }}")
    acc="Seq::<u8>::empty()"
    w(f"""            proof {{ assert(self.enc() is Some); assert(q.$output@ =~= old(s).$output@ + self.enc()->Some_0); }}
            <&mut $Serializer as SerializeTuple>::end(q)
        }} }}
    }}
}}
#[verifier::reject_recursive_types_in_ground_variants(T0)]
pub struct V_Tup{n}<{', '.join(G)}> {{ m: PhantomData<{ty}> }}
pub open spec fn tup{n}_rel<'de, {db}>(i: Seq<u8>, r: Result<{ty}, Error>, rest: Seq<u8>) -> bool {{
    match r {{ Ok(v) => {okrel},
      Err(e) => {errel} }}
}}
impl<'de, {db}> Visitor<'de> for V_Tup{n}<{', '.join(G)}> {{
    type Value = {ty};
    open spec fn pre(self, ev: Ev) -> bool {{ ev == Ev::Seq({n}) }}
    open spec fn rel(self, ev: Ev, r: Result<{ty}, Error>) -> bool {{ false }}
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<{ty}, Error>, rest: Seq<u8>) -> bool {{ ev is Seq && tup{n}_rel(input, r, rest) }}
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<{ty}, Error>) {{
        let mut seq = seq;""")
    w("        let ghost m0 = seq.$de.$input@;")
    for k in range(n):
        w(f"        let x{k} = match seq.next_element::<T{k}>() {{ Err(e) => return Err(e), Ok(None) => return Err(Error::NotImplemented), Ok(Some(x)) => x }};")
        w(f"        let ghost m{k+1} = seq.$de.$input@; proof {{ assert(T{k}::dec(m{k}, Ok(x{k}), m{k+1})); }}")
    w(f"        let v = ({', '.join(f'x{k}' for k in range(n))}{',' if n==1 else ''}); proof {{ " + " ".join(f"assert(T{k}::dec(m{k}, Ok(v.{k}), m{k+1}));" for k in range(n)) + f" let ghost rr = Ok::<{ty}, Error>(v); assert(rr->Ok_0 == v); " + " ".join(f"assert({derived.ok_chain(fl[k:], lambda f: f'rr->Ok_0.{f}', f'm{k}', f'm{n}', k)});" for k in reversed(range(n))) + f" assert(tup{n}_rel(m0, rr, m{n})); }}")
    w("        return Ok(v);")
    w("    }\n    FILL\n}")
    w(f"""
impl<'de, {db}> Deserialize<'de> for {ty} {{{{""".replace("{{{{","{{").replace("{{","{"))
    w(f"""    open spec fn dec(i: Seq<u8>, r: Result<{ty}, Error>, rest: Seq<u8>) -> bool {{ tup{n}_rel(i, r, rest) }}
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<{ty}, Error>) {{ d.deserialize_tuple({n}, V_Tup{n}::<{', '.join(G)}> {{ m: PhantomData }}) }}
}}
impl<'de, {rb}> RT<'de> for {ty} {{
    open spec fn same(a: {ty}, b: {ty}) -> bool {{ {' && '.join(f'T{k}::same(a.{k}, b.{k})' for k in range(n))} }}
    proof fn rt(v: {ty}, e: Seq<u8>, tail: Seq<u8>, r: Result<{ty}, Error>, rest: Seq<u8>) {{
""")
    pv=lambda f: f"v.{f}"; px=lambda f: f"x.{f}"
    w(" ".join(derived.rt_body(fl,pv,px)))
    w("        assert(e + tail =~= t0);")
    w(f"        match r {{ Ok(x) => {{ {' '.join(derived.rt_ok(fl,pv,px))} }}, Err(k) => {{ {' '.join(derived.rt_err(fl,pv))} }} }}")
    w("    }\n}")
for n in (1,2,3): tup(n)
w("""
// ---- whole messages
/// C12: encoding then decoding gives the value back
pub fn vx_roundtrip<'de, T: RT<'de>>(v: &T, b: &'de [u8]) -> (r: Result<T, Error>)
    requires v.enc() == Some(b@)
    ensures r is Ok, T::same(*v, r->Ok_0)
{
    let r = crate::de::from_bytes::<T>(b);
    proof { lemma_roundtrip(*v, b@, r); }
    r
}
pub proof fn lemma_roundtrip<'de, T: RT<'de>>(v: T, b: Seq<u8>, r: Result<T, Error>)
    requires v.enc() == Some(b), crate::spec_de::from_rel(b, r)
    ensures r is Ok, T::same(v, r->Ok_0)
{
    assert(b + Seq::<u8>::empty() =~= b);
    let t = Seq::<u8>::empty();
    match r {
        Ok(x) => { let rest = choose|rest: Seq<u8>| #[trigger] T::dec(b, Ok(x), rest) && rest.len() == 0; T::rt(v, b, t, Ok(x), rest); }
        Err(e) => {
            if exists|rest: Seq<u8>| #[trigger] T::dec(b, Err(e), rest) {
                let rest = choose|rest: Seq<u8>| #[trigger] T::dec(b, Err(e), rest);
                T::rt(v, b, t, Err(e), rest);
            } else {
                let (x, rest) = choose|x: T, rest: Seq<u8>| #[trigger] T::dec(b, Ok(x), rest) && rest.len() > 0 && e == Error::TrailingData(rest.len() as usize);
                T::rt(v, b, t, Ok(x), rest);
            }
        }
    }
}
/// two values with one encoding are the same value
pub proof fn vx_injective<'de, T: RT<'de>>(a: T, b: T, r: Result<T, Error>, rest: Seq<u8>)
    requires a.enc() is Some, a.enc() == b.enc(), T::dec(a.enc()->Some_0, r, rest)
    ensures r is Ok, T::same(a, r->Ok_0), T::same(b, r->Ok_0)
{
    let e = a.enc()->Some_0;
    assert(e + Seq::<u8>::empty() =~= e);
    T::rt(a, e, Seq::<u8>::empty(), r, rest);
    T::rt(b, e, Seq::<u8>::empty(), r, rest);
}
}
""")
s="\n".join(out)
# fill the unreachable visitor methods
import re
sv=open(__file__.replace("gen_std.py","serde.vspec")).read()
sigs=[l for l in sv.split("@@fill Visitor\n")[1].split("\n@@")[0].splitlines() if l.strip()]
res=[];cur=set();
for part in re.split(r"(?=\bimpl<)",s):
    if "    FILL\n" in part:
        have=set(re.findall(r"fn (visit_\w+)",part))
        fill="".join(f"    fn {x} -> (r: Result<Self::Value, Error>) {{ crate::vx::vx_panic() }}\n" for x in sigs if x.split("(")[0] not in have)
        part=part.replace("    FILL\n",fill)
    # mention the specification functions of the implementation, so that Verus orders their definitions before the bodies
    if "for " in part and "open spec fn" in part:
        part=re.sub(r"(    fn serialize\(&self, s: [^)]*\) -> \(r: [^{]*?\) \{)", r"\1 proof { let _ = <Self as Serialize>::enc(arbitrary()); }", part)
        part=re.sub(r"(    fn deserialize\(d: &mut \$Deserializer<'de>\) -> \(r: [^{]*?\) \{)", r"\1 proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); }", part)
        V="<Self as Visitor<'de>>"
        part=re.sub(r"(    fn visit_\w+\(self[^{]*?\) -> \(r: [^{]*?\) \{)(?! crate::vx::vx_panic)", rf"\1 proof {{ let _ = {V}::pre(arbitrary(), arbitrary()); let _ = {V}::rel(arbitrary(), arbitrary(), arbitrary()); let _ = {V}::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); }}", part)
    res.append(part)
open(__file__.replace("gen_std.py","serde_std_gen.vspec"),"w").write("".join(res))
