@@comment
GENERATED by gen_std.py
@@root
pub mod vxstd {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::wire::*;
use crate::error::Error;
use crate::vx::*;
use crate::serde::ser::*;
use crate::serde::de::*;
use crate::serde::{cat, emits};
use core::marker::PhantomData;

/// values of `Self` survive encoding followed by decoding, wherever they stand in the input
pub trait RT<'de>: Serialize + Deserialize<'de> {
    spec fn same(a: Self, b: Self) -> bool;
    proof fn rt(v: Self, e: Seq<u8>, tail: Seq<u8>, r: Result<Self, Error>, rest: Seq<u8>)
        requires v.enc() == Some(e), Self::dec(e + tail, r, rest)
        ensures r is Ok, Self::same(v, r->Ok_0), rest == tail;
}
pub proof fn lemma_skip<T>(a: Seq<T>, b: Seq<T>)
    ensures (a + b).skip(a.len() as int) == b, (a + b).take(a.len() as int) == a
{ assert((a + b).skip(a.len() as int) =~= b); assert((a + b).take(a.len() as int) =~= a); }


pub struct V_bool;
impl<'de> Visitor<'de> for V_bool {
    type Value = bool;
    open spec fn pre(self, ev: Ev) -> bool { ev is Bool }
    open spec fn rel(self, ev: Ev, r: Result<bool, Error>) -> bool { r == Ok::<bool, Error>(ev->Bool_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<bool, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_bool(self, v: bool) -> (r: Result<bool, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for bool {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be32(if *self { 1u32 } else { 0u32 })) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_bool(*self) }
}
impl<'de> Deserialize<'de> for bool {
    open spec fn dec(i: Seq<u8>, r: Result<bool, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { (de32(i) == 0 ==> r == Ok::<bool, Error>(false) && rest == i.skip(4)) && (de32(i) == 1 ==> r == Ok::<bool, Error>(true) && rest == i.skip(4)) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<bool, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_bool(V_bool) }
}
impl<'de> RT<'de> for bool {
    open spec fn same(a: bool, b: bool) -> bool { a == b }
    proof fn rt(v: bool, e: Seq<u8>, tail: Seq<u8>, r: Result<bool, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_i8;
impl<'de> Visitor<'de> for V_i8 {
    type Value = i8;
    open spec fn pre(self, ev: Ev) -> bool { ev is I8 }
    open spec fn rel(self, ev: Ev, r: Result<i8, Error>) -> bool { r == Ok::<i8, Error>(ev->I8_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<i8, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_i8(self, v: i8) -> (r: Result<i8, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for i8 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be32(u_of_i32(*self as i32))) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_i8(*self) }
}
impl<'de> Deserialize<'de> for i8 {
    open spec fn dec(i: Seq<u8>, r: Result<i8, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { if i8::MIN as int <= i_of_u32(de32(i)) as int && i_of_u32(de32(i)) as int <= i8::MAX as int { r == Ok::<i8, Error>(i_of_u32(de32(i)) as i8) && rest == i.skip(4) } else { r is Err } }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<i8, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_i8(V_i8) }
}
impl<'de> RT<'de> for i8 {
    open spec fn same(a: i8, b: i8) -> bool { a == b }
    proof fn rt(v: i8, e: Seq<u8>, tail: Seq<u8>, r: Result<i8, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_i16;
impl<'de> Visitor<'de> for V_i16 {
    type Value = i16;
    open spec fn pre(self, ev: Ev) -> bool { ev is I16 }
    open spec fn rel(self, ev: Ev, r: Result<i16, Error>) -> bool { r == Ok::<i16, Error>(ev->I16_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<i16, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_i16(self, v: i16) -> (r: Result<i16, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for i16 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be32(u_of_i32(*self as i32))) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_i16(*self) }
}
impl<'de> Deserialize<'de> for i16 {
    open spec fn dec(i: Seq<u8>, r: Result<i16, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { if i16::MIN as int <= i_of_u32(de32(i)) as int && i_of_u32(de32(i)) as int <= i16::MAX as int { r == Ok::<i16, Error>(i_of_u32(de32(i)) as i16) && rest == i.skip(4) } else { r is Err } }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<i16, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_i16(V_i16) }
}
impl<'de> RT<'de> for i16 {
    open spec fn same(a: i16, b: i16) -> bool { a == b }
    proof fn rt(v: i16, e: Seq<u8>, tail: Seq<u8>, r: Result<i16, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_i32;
impl<'de> Visitor<'de> for V_i32 {
    type Value = i32;
    open spec fn pre(self, ev: Ev) -> bool { ev is I32 }
    open spec fn rel(self, ev: Ev, r: Result<i32, Error>) -> bool { r == Ok::<i32, Error>(ev->I32_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<i32, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_i32(self, v: i32) -> (r: Result<i32, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for i32 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be32(u_of_i32(*self))) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_i32(*self) }
}
impl<'de> Deserialize<'de> for i32 {
    open spec fn dec(i: Seq<u8>, r: Result<i32, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { r == Ok::<i32, Error>(i_of_u32(de32(i))) && rest == i.skip(4) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<i32, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_i32(V_i32) }
}
impl<'de> RT<'de> for i32 {
    open spec fn same(a: i32, b: i32) -> bool { a == b }
    proof fn rt(v: i32, e: Seq<u8>, tail: Seq<u8>, r: Result<i32, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_i64;
impl<'de> Visitor<'de> for V_i64 {
    type Value = i64;
    open spec fn pre(self, ev: Ev) -> bool { ev is I64 }
    open spec fn rel(self, ev: Ev, r: Result<i64, Error>) -> bool { r == Ok::<i64, Error>(ev->I64_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<i64, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_i64(self, v: i64) -> (r: Result<i64, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for i64 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be64(u_of_i64(*self))) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_i64(*self) }
}
impl<'de> Deserialize<'de> for i64 {
    open spec fn dec(i: Seq<u8>, r: Result<i64, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 8 { r is Err && r->Err_0 == Error::NotEnoughData((8 - i.len()) as usize) } else { r == Ok::<i64, Error>(i_of_u64(de64(i))) && rest == i.skip(8) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<i64, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_i64(V_i64) }
}
impl<'de> RT<'de> for i64 {
    open spec fn same(a: i64, b: i64) -> bool { a == b }
    proof fn rt(v: i64, e: Seq<u8>, tail: Seq<u8>, r: Result<i64, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_u8;
impl<'de> Visitor<'de> for V_u8 {
    type Value = u8;
    open spec fn pre(self, ev: Ev) -> bool { ev is U8 }
    open spec fn rel(self, ev: Ev, r: Result<u8, Error>) -> bool { r == Ok::<u8, Error>(ev->U8_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<u8, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_u8(self, v: u8) -> (r: Result<u8, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for u8 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be32(*self as u32)) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_u8(*self) }
}
impl<'de> Deserialize<'de> for u8 {
    open spec fn dec(i: Seq<u8>, r: Result<u8, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { if u8::MIN as int <= de32(i) as int && de32(i) as int <= u8::MAX as int { r == Ok::<u8, Error>(de32(i) as u8) && rest == i.skip(4) } else { r is Err } }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<u8, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_u8(V_u8) }
}
impl<'de> RT<'de> for u8 {
    open spec fn same(a: u8, b: u8) -> bool { a == b }
    proof fn rt(v: u8, e: Seq<u8>, tail: Seq<u8>, r: Result<u8, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_u16;
impl<'de> Visitor<'de> for V_u16 {
    type Value = u16;
    open spec fn pre(self, ev: Ev) -> bool { ev is U16 }
    open spec fn rel(self, ev: Ev, r: Result<u16, Error>) -> bool { r == Ok::<u16, Error>(ev->U16_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<u16, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_u16(self, v: u16) -> (r: Result<u16, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for u16 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be32(*self as u32)) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_u16(*self) }
}
impl<'de> Deserialize<'de> for u16 {
    open spec fn dec(i: Seq<u8>, r: Result<u16, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { if u16::MIN as int <= de32(i) as int && de32(i) as int <= u16::MAX as int { r == Ok::<u16, Error>(de32(i) as u16) && rest == i.skip(4) } else { r is Err } }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<u16, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_u16(V_u16) }
}
impl<'de> RT<'de> for u16 {
    open spec fn same(a: u16, b: u16) -> bool { a == b }
    proof fn rt(v: u16, e: Seq<u8>, tail: Seq<u8>, r: Result<u16, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_u32;
impl<'de> Visitor<'de> for V_u32 {
    type Value = u32;
    open spec fn pre(self, ev: Ev) -> bool { ev is U32 }
    open spec fn rel(self, ev: Ev, r: Result<u32, Error>) -> bool { r == Ok::<u32, Error>(ev->U32_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<u32, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_u32(self, v: u32) -> (r: Result<u32, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for u32 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be32(*self)) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_u32(*self) }
}
impl<'de> Deserialize<'de> for u32 {
    open spec fn dec(i: Seq<u8>, r: Result<u32, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { r == Ok::<u32, Error>(de32(i)) && rest == i.skip(4) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<u32, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_u32(V_u32) }
}
impl<'de> RT<'de> for u32 {
    open spec fn same(a: u32, b: u32) -> bool { a == b }
    proof fn rt(v: u32, e: Seq<u8>, tail: Seq<u8>, r: Result<u32, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_u64;
impl<'de> Visitor<'de> for V_u64 {
    type Value = u64;
    open spec fn pre(self, ev: Ev) -> bool { ev is U64 }
    open spec fn rel(self, ev: Ev, r: Result<u64, Error>) -> bool { r == Ok::<u64, Error>(ev->U64_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<u64, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_u64(self, v: u64) -> (r: Result<u64, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for u64 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be64(*self)) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_u64(*self) }
}
impl<'de> Deserialize<'de> for u64 {
    open spec fn dec(i: Seq<u8>, r: Result<u64, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 8 { r is Err && r->Err_0 == Error::NotEnoughData((8 - i.len()) as usize) } else { r == Ok::<u64, Error>(de64(i)) && rest == i.skip(8) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<u64, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_u64(V_u64) }
}
impl<'de> RT<'de> for u64 {
    open spec fn same(a: u64, b: u64) -> bool { a == b }
    proof fn rt(v: u64, e: Seq<u8>, tail: Seq<u8>, r: Result<u64, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_f32;
impl<'de> Visitor<'de> for V_f32 {
    type Value = f32;
    open spec fn pre(self, ev: Ev) -> bool { ev is F32 }
    open spec fn rel(self, ev: Ev, r: Result<f32, Error>) -> bool { r == Ok::<f32, Error>(ev->F32_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<f32, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_f32(self, v: f32) -> (r: Result<f32, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for f32 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be32(f32_bits(*self))) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_f32(*self) }
}
impl<'de> Deserialize<'de> for f32 {
    open spec fn dec(i: Seq<u8>, r: Result<f32, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { r is Ok && f32_bits(r->Ok_0) == de32(i) && rest == i.skip(4) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<f32, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_f32(V_f32) }
}
impl<'de> RT<'de> for f32 {
    open spec fn same(a: f32, b: f32) -> bool { f32_bits(a) == f32_bits(b) }
    proof fn rt(v: f32, e: Seq<u8>, tail: Seq<u8>, r: Result<f32, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_f64;
impl<'de> Visitor<'de> for V_f64 {
    type Value = f64;
    open spec fn pre(self, ev: Ev) -> bool { ev is F64 }
    open spec fn rel(self, ev: Ev, r: Result<f64, Error>) -> bool { r == Ok::<f64, Error>(ev->F64_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<f64, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_f64(self, v: f64) -> (r: Result<f64, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for f64 {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be64(f64_bits(*self))) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_f64(*self) }
}
impl<'de> Deserialize<'de> for f64 {
    open spec fn dec(i: Seq<u8>, r: Result<f64, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 8 { r is Err && r->Err_0 == Error::NotEnoughData((8 - i.len()) as usize) } else { r is Ok && f64_bits(r->Ok_0) == de64(i) && rest == i.skip(8) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<f64, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_f64(V_f64) }
}
impl<'de> RT<'de> for f64 {
    open spec fn same(a: f64, b: f64) -> bool { f64_bits(a) == f64_bits(b) }
    proof fn rt(v: f64, e: Seq<u8>, tail: Seq<u8>, r: Result<f64, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        
        
    }
}


pub struct V_char;
impl<'de> Visitor<'de> for V_char {
    type Value = char;
    open spec fn pre(self, ev: Ev) -> bool { ev is Char }
    open spec fn rel(self, ev: Ev, r: Result<char, Error>) -> bool { r == Ok::<char, Error>(ev->Char_0) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<char, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_char(self, v: char) -> (r: Result<char, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(v) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for char {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(be32(*self as u32)) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_char(*self) }
}
impl<'de> Deserialize<'de> for char {
    open spec fn dec(i: Seq<u8>, r: Result<char, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { if scalar_value(de32(i)) { r is Ok && r->Ok_0 as u32 == de32(i) && rest == i.skip(4) } else { r is Err } }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<char, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_char(V_char) }
}
impl<'de> RT<'de> for char {
    open spec fn same(a: char, b: char) -> bool { a == b }
    proof fn rt(v: char, e: Seq<u8>, tail: Seq<u8>, r: Result<char, Error>, rest: Seq<u8>) {
        broadcast use {lemma_de_be32, lemma_de_be64};
        lemma_signed();
        lemma_skip(e, tail);
        lemma_char(v);
        if r is Ok { lemma_char_inj(v, r->Ok_0); }
    }
}


pub proof fn lemma_char(c: char) ensures scalar_value(c as u32) {
    assert(c as u32 <= 0x10FFFF && !(0xD800 <= c as u32 && c as u32 <= 0xDFFF)) ;
}
pub proof fn lemma_char_inj(a: char, b: char) requires a as u32 == b as u32 ensures a == b {}

// ---- strings and byte strings
pub struct V_String;
impl<'de> Visitor<'de> for V_String {
    type Value = String;
    open spec fn pre(self, ev: Ev) -> bool { ev is Str }
    open spec fn rel(self, ev: Ev, r: Result<String, Error>) -> bool { r is Ok && r->Ok_0@ == ev->Str_0 }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<String, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_str(self, v: &str) -> (r: Result<String, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(vx_string(v)) }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<String, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(vx_string(v)) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for str {
    open spec fn enc(&self) -> Option<Seq<u8>> { crate::spec_ser::enc_bytes(encode_utf8(self@)) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_str(self) }
}
impl Serialize for String {
    open spec fn enc(&self) -> Option<Seq<u8>> { crate::spec_ser::enc_bytes(encode_utf8(self@)) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_str(self.as_str()) }
}
impl<'de> Deserialize<'de> for String {
    open spec fn dec(i: Seq<u8>, r: Result<String, Error>, rest: Seq<u8>) -> bool { crate::spec_de::de_str(V_String, i, r, rest) }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<String, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_string(V_String) }
}
pub proof fn lemma_bytes(b: Seq<u8>, tail: Seq<u8>)
    requires b.len() <= u32::MAX
    ensures ({ let i = be32(b.len() as u32) + b + pad(b.len() as int) + tail;
        de32(i) == b.len() && i.len() >= 4 && crate::spec_de::complete(i) && crate::spec_de::content(i) == b && crate::spec_de::after(i) == tail })
{
    let n = b.len() as int;
    let i = be32(n as u32) + b + pad(n) + tail;
    assert(i =~= be32(n as u32) + (b + pad(n) + tail));
    lemma_de_be32(n as u32, b + pad(n) + tail);
    assert(crate::spec_de::content(i) =~= b);
    assert(crate::spec_de::after(i) =~= tail);
}
impl<'de> RT<'de> for String {
    open spec fn same(a: String, b: String) -> bool { a@ == b@ }
    proof fn rt(v: String, e: Seq<u8>, tail: Seq<u8>, r: Result<String, Error>, rest: Seq<u8>) {
        let b = encode_utf8(v@);
        lemma_bytes(b, tail);
        vstd::utf8::encode_utf8_valid_utf8(v@);
        assert(e + tail =~= be32(b.len() as u32) + b + pad(b.len() as int) + tail);
        let s = choose|s: Seq<char>| encode_utf8(s) == b && #[trigger] V_String.rel(Ev::Str(s), r) && rest == crate::spec_de::after(e + tail);
        vstd::utf8::encode_utf8_decode_utf8(v@);
        vstd::utf8::encode_utf8_decode_utf8(s);
    }
}
/// a byte string (serialize_bytes / deserialize_byte_buf)
pub struct VxByteBuf { pub b: Vec<u8> }
pub struct V_Bytes;
impl<'de> Visitor<'de> for V_Bytes {
    type Value = VxByteBuf;
    open spec fn pre(self, ev: Ev) -> bool { ev is Bytes }
    open spec fn rel(self, ev: Ev, r: Result<VxByteBuf, Error>) -> bool { r is Ok && r->Ok_0.b@ == ev->Bytes_0 }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<VxByteBuf, Error>, rest: Seq<u8>) -> bool { false }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<VxByteBuf, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(VxByteBuf { b: v.vx_to_vec() }) }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<VxByteBuf, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(VxByteBuf { b: v.vx_to_vec() }) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl Serialize for VxByteBuf {
    open spec fn enc(&self) -> Option<Seq<u8>> { crate::spec_ser::enc_bytes(self.b@) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_bytes(self.b.as_slice()) }
}
impl<'de> Deserialize<'de> for VxByteBuf {
    open spec fn dec(i: Seq<u8>, r: Result<VxByteBuf, Error>, rest: Seq<u8>) -> bool { crate::spec_de::de_bytes(V_Bytes, i, r, rest) }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<VxByteBuf, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_byte_buf(V_Bytes) }
}
impl<'de> RT<'de> for VxByteBuf {
    open spec fn same(a: VxByteBuf, b: VxByteBuf) -> bool { a.b@ == b.b@ }
    proof fn rt(v: VxByteBuf, e: Seq<u8>, tail: Seq<u8>, r: Result<VxByteBuf, Error>, rest: Seq<u8>) {
        lemma_bytes(v.b@, tail);
        assert(e + tail =~= be32(v.b@.len() as u32) + v.b@ + pad(v.b@.len() as int) + tail);
    }
}
// ---- unit, references, boxes
impl Serialize for () {
    open spec fn enc(&self) -> Option<Seq<u8>> { Some(Seq::<u8>::empty()) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } s.serialize_unit() }
}
pub struct V_Unit;
impl<'de> Visitor<'de> for V_Unit {
    type Value = ();
    open spec fn pre(self, ev: Ev) -> bool { ev is Unit }
    open spec fn rel(self, ev: Ev, r: Result<(), Error>) -> bool { r is Ok }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<(), Error>, rest: Seq<u8>) -> bool { false }
    fn visit_unit(self) -> (r: Result<(), Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(()) }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl<'de> Deserialize<'de> for () {
    open spec fn dec(i: Seq<u8>, r: Result<(), Error>, rest: Seq<u8>) -> bool { r is Ok && rest == i }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<(), Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_unit(V_Unit) }
}
impl<'de> RT<'de> for () {
    open spec fn same(a: (), b: ()) -> bool { true }
    proof fn rt(v: (), e: Seq<u8>, tail: Seq<u8>, r: Result<(), Error>, rest: Seq<u8>) { assert(e + tail =~= tail); }
}
impl<'a, T: Serialize + ?Sized> Serialize for &'a T {
    open spec fn enc(&self) -> Option<Seq<u8>> { (**self).enc() }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } (**self).serialize(s) }
}
impl<T: Serialize> Serialize for Box<T> {
    open spec fn enc(&self) -> Option<Seq<u8>> { (**self).enc() }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } (**self).serialize(s) }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Box<T> {
    open spec fn dec(i: Seq<u8>, r: Result<Box<T>, Error>, rest: Seq<u8>) -> bool {
        match r { Ok(b) => T::dec(i, Ok(*b), rest), Err(e) => T::dec(i, Err(e), rest) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<Box<T>, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } match T::deserialize(d) { Ok(x) => Ok(Box::new(x)), Err(e) => Err(e) } }
}
impl<'de, T: RT<'de>> RT<'de> for Box<T> {
    open spec fn same(a: Box<T>, b: Box<T>) -> bool { T::same(*a, *b) }
    proof fn rt(v: Box<T>, e: Seq<u8>, tail: Seq<u8>, r: Result<Box<T>, Error>, rest: Seq<u8>) {
        match r { Ok(b) => T::rt(*v, e, tail, Ok(*b), rest), Err(x) => T::rt(*v, e, tail, Err(x), rest) }
    }
}
// ---- options
impl<T: Serialize> Serialize for Option<T> {
    open spec fn enc(&self) -> Option<Seq<u8>> { match *self { Some(x) => cat(Some(be32(1)), x.enc()), None => Some(be32(0)) } }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } match self { Some(x) => s.serialize_some(x), None => s.serialize_none() } }
}
#[verifier::reject_recursive_types(T)]
pub struct V_Option<T> { m: PhantomData<T> }
pub open spec fn some_rel<'de, T: Deserialize<'de>>(i: Seq<u8>, r: Result<Option<T>, Error>, rest: Seq<u8>) -> bool {
    match r { Ok(o) => o is Some && T::dec(i, Ok(o->Some_0), rest), Err(e) => T::dec(i, Err(e), rest) }
}
impl<'de, T: Deserialize<'de>> Visitor<'de> for V_Option<T> {
    type Value = Option<T>;
    open spec fn pre(self, ev: Ev) -> bool { ev is None || ev is Some }
    open spec fn rel(self, ev: Ev, r: Result<Option<T>, Error>) -> bool { ev is None && r == Ok::<Option<T>, Error>(None) }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<Option<T>, Error>, rest: Seq<u8>) -> bool { ev is Some && some_rel(input, r, rest) }
    fn visit_none(self) -> (r: Result<Option<T>, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } Ok(None) }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Option<T>, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); } match T::deserialize(d) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Option<T> {
    open spec fn dec(i: Seq<u8>, r: Result<Option<T>, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) }
        else { (de32(i) == 0 ==> r == Ok::<Option<T>, Error>(None) && rest == i.skip(4)) && (de32(i) == 1 ==> some_rel(i.skip(4), r, rest)) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<Option<T>, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_option(V_Option::<T> { m: PhantomData }) }
}
impl<'de, T: RT<'de>> RT<'de> for Option<T> {
    open spec fn same(a: Option<T>, b: Option<T>) -> bool { match (a, b) { (Some(x), Some(y)) => T::same(x, y), (None, None) => true, _ => false } }
    proof fn rt(v: Option<T>, e: Seq<u8>, tail: Seq<u8>, r: Result<Option<T>, Error>, rest: Seq<u8>) {
        match v {
            None => { lemma_de_be32(0, tail); lemma_skip(be32(0), tail); }
            Some(x) => {
                let ex = x.enc()->Some_0;
                assert(e + tail =~= be32(1) + (ex + tail));
                lemma_de_be32(1, ex + tail);
                lemma_skip(be32(1), ex + tail);
                match r { Ok(o) => { if o is Some { T::rt(x, ex, tail, Ok(o->Some_0), rest); } }, Err(k) => { T::rt(x, ex, tail, Err(k), rest); } }
            }
        }
    }
}
// ---- sequences
pub open spec fn enc_all<T: Serialize>(s: Seq<T>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(Seq::<u8>::empty()) } else { cat(enc_all(s.drop_last()), s.last().enc()) }
}
pub open spec fn enc_seq<T: Serialize>(s: Seq<T>) -> Option<Seq<u8>> { cat(crate::spec_ser::enc_len(if s.len() <= usize::MAX { Some(s.len() as usize) } else { None }), enc_all(s)) }
pub open spec fn dec_all<'de, T: Deserialize<'de>>(i: Seq<u8>, s: Seq<T>, rest: Seq<u8>) -> bool decreases s.len() {
    if s.len() == 0 { rest == i } else { exists|mid: Seq<u8>| dec_all(i, s.drop_last(), mid) && #[trigger] T::dec(mid, Ok(s.last()), rest) }
}
pub open spec fn dec_fail<'de, T: Deserialize<'de>>(i: Seq<u8>, n: nat, e: Error) -> bool {
    exists|s: Seq<T>, mid: Seq<u8>, rest: Seq<u8>| s.len() < n && #[trigger] dec_all(i, s, mid) && #[trigger] T::dec(mid, Err(e), rest)
}
pub open spec fn same_all<'de, T: RT<'de>>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] T::same(a[k], b[k]) }
pub proof fn lemma_enc_prefix<T: Serialize>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len(), enc_all(s) is Some
    ensures enc_all(s.take(k)) is Some
    decreases s.len() - k
{
    if k < s.len() {
        lemma_enc_prefix(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
    } else { assert(s.take(k) =~= s); }
}
/// the items encoded from k on
pub open spec fn enc_from<T: Serialize>(s: Seq<T>, k: int) -> Seq<u8> decreases s.len() - k {
    if k >= s.len() || k < 0 { Seq::<u8>::empty() } else { s[k].enc()->Some_0 + enc_from(s, k + 1) }
}
pub proof fn lemma_enc_from<T: Serialize>(s: Seq<T>, k: int)
    requires 0 <= k <= s.len(), enc_all(s) is Some
    ensures enc_all(s)->Some_0 == enc_all(s.take(k))->Some_0 + enc_from(s, k), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).enc() is Some
    decreases s.len() - k
{
    if k < s.len() {
        lemma_enc_from(s, k + 1);
        lemma_enc_prefix(s, k + 1);
        lemma_enc_prefix(s, k);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
        assert(enc_all(s)->Some_0 =~= enc_all(s.take(k))->Some_0 + enc_from(s, k));
    } else {
        assert(s.take(k) =~= s);
        assert(enc_all(s)->Some_0 =~= enc_all(s)->Some_0 + enc_from(s, k));
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).enc() is Some by {
            lemma_enc_prefix(s, j + 1);
            assert(s.take(j + 1).last() == s[j]);
        }
    }
}
pub proof fn lemma_dec_all<'de, T: RT<'de>>(v: Seq<T>, tail: Seq<u8>, s: Seq<T>, rest: Seq<u8>)
    requires enc_all(v) is Some, s.len() <= v.len(), dec_all(enc_from(v, 0) + tail, s, rest)
    ensures rest == enc_from(v, s.len() as int) + tail, same_all(v.take(s.len() as int), s)
    decreases s.len()
{
    lemma_enc_from(v, 0);
    if s.len() > 0 {
        let n = s.len() as int;
        let p = s.drop_last();
        let mid = choose|mid: Seq<u8>| dec_all(enc_from(v, 0) + tail, p, mid) && #[trigger] T::dec(mid, Ok(s.last()), rest);
        lemma_dec_all(v, tail, p, mid);
        let e = v[n - 1].enc()->Some_0;
        assert(mid =~= e + (enc_from(v, n) + tail));
        T::rt(v[n - 1], e, enc_from(v, n) + tail, Ok(s.last()), rest);
        assert forall|k: int| 0 <= k < n implies #[trigger] T::same(v.take(n)[k], s[k]) by {
            if k < n - 1 { assert(T::same(v.take(n - 1)[k], p[k])); }
        }
    }
}
pub proof fn lemma_dec_nofail<'de, T: RT<'de>>(v: Seq<T>, tail: Seq<u8>, e: Error)
    requires enc_all(v) is Some
    ensures !dec_fail::<T>(enc_from(v, 0) + tail, v.len(), e)
{
    let i = enc_from(v, 0) + tail;
    if dec_fail::<T>(i, v.len(), e) {
        let (s, mid, rest) = choose|s: Seq<T>, mid: Seq<u8>, rest: Seq<u8>| s.len() < v.len() && #[trigger] dec_all(i, s, mid) && #[trigger] T::dec(mid, Err(e), rest);
        lemma_dec_all(v, tail, s, mid);
        lemma_enc_from(v, 0);
        let n = s.len() as int;
        let b = v[n].enc()->Some_0;
        assert(mid =~= b + (enc_from(v, n + 1) + tail));
        T::rt(v[n], b, enc_from(v, n + 1) + tail, Err(e), rest);
    }
}
impl<T: Serialize> Serialize for [T] {
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_seq(self@) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); }
        let ghost start = s.$output@;
        let ghost e0 = crate::spec_ser::enc_len(Some(self@.len() as usize));
        let ghost fin = *final(s);
        match s.serialize_seq(Some(self.len())) {
            Err(e) => Err(e),
            Ok(q) => {
                let mut q = q;
                let mut k: usize = 0;
                while k < self.len()
                    invariant k <= self@.len(), e0 is Some, enc_all(self@.take(k as int)) is Some,
                        (*q).$output@ == start + (e0->Some_0 + enc_all(self@.take(k as int))->Some_0), *final(q) == fin,
                    decreases self@.len() - k
                {
                    proof { assert(self@.take(k + 1).drop_last() =~= self@.take(k as int)); assert(self@.take(k + 1).last() == self@[k as int]); }
                    match <&mut $Serializer as SerializeSeq>::serialize_element(&mut q, &self[k]) {
                        Err(e) => { proof { if enc_all(self@) is Some { lemma_enc_prefix(self@, k + 1); } } return Err(e); }
                        Ok(_) => {}
                    }
                    k += 1;
                }
                proof { assert(self@.take(self@.len() as int) =~= self@); }
                <&mut $Serializer as SerializeSeq>::end(q)
            }
        }
    }
}
impl<T: Serialize> Serialize for Vec<T> {
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_seq(self@) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); } self.as_slice().serialize(s) }
}
#[verifier::reject_recursive_types(T)]
pub struct V_Vec<T> { m: PhantomData<T> }
pub open spec fn vec_rel<'de, T: Deserialize<'de>>(n: nat, i: Seq<u8>, r: Result<Vec<T>, Error>, rest: Seq<u8>) -> bool {
    match r { Ok(v) => v@.len() == n && dec_all(i, v@, rest), Err(e) => dec_fail::<T>(i, n, e) }
}
impl<'de, T: Deserialize<'de>> Visitor<'de> for V_Vec<T> {
    type Value = Vec<T>;
    open spec fn pre(self, ev: Ev) -> bool { ev is Seq }
    open spec fn rel(self, ev: Ev, r: Result<Vec<T>, Error>) -> bool { false }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<Vec<T>, Error>, rest: Seq<u8>) -> bool { ev is Seq && vec_rel(ev->Seq_0, input, r, rest) }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Vec<T>, Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); }
        let ghost n = seq.$count as nat;
        let ghost i = seq.$de.$input@;
        let ghost fin = *final(seq.$de);
        let mut seq = seq;
        let mut v: Vec<T> = Vec::new();
        #[verifier::loop_isolation(false)]
        loop
            invariant v@.len() + seq.$count == n, dec_all(i, v@, seq.$de.$input@), *final(seq.$de) == fin,
            decreases seq.$count
        {
            let ghost mid = seq.$de.$input@;
            match seq.next_element::<T>() {
                Err(e) => { proof { assert(dec_fail::<T>(i, n, e)); } return Err(e); }
                Ok(None) => { return Ok(v); }
                Ok(Some(x)) => {
                    proof { assert(v@.push(x).drop_last() =~= v@); assert(T::dec(mid, Ok(v@.push(x).last()), seq.$de.$input@)); }
                    v.push(x);
                }
            }
        }
    }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Vec<T> {
    open spec fn dec(i: Seq<u8>, r: Result<Vec<T>, Error>, rest: Seq<u8>) -> bool {
        if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { vec_rel(de32(i) as nat, i.skip(4), r, rest) }
    }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<Vec<T>, Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_seq(V_Vec::<T> { m: PhantomData }) }
}
impl<'de, T: RT<'de>> RT<'de> for Vec<T> {
    open spec fn same(a: Vec<T>, b: Vec<T>) -> bool { same_all(a@, b@) }
    proof fn rt(v: Vec<T>, e: Seq<u8>, tail: Seq<u8>, r: Result<Vec<T>, Error>, rest: Seq<u8>) {
        let n = v@.len();
        lemma_enc_from(v@, 0);
        assert(v@.take(0) =~= Seq::<T>::empty());
        let body = enc_from(v@, 0);
        assert(e + tail =~= be32(n as u32) + (body + tail));
        lemma_de_be32(n as u32, body + tail);
        lemma_skip(be32(n as u32), body + tail);
        match r {
            Ok(x) => { lemma_dec_all(v@, tail, x@, rest); assert(v@.take(n as int) =~= v@); assert(enc_from(v@, n as int) + tail =~= tail); }
            Err(x) => { lemma_dec_nofail::<T>(v@, tail, x); }
        }
    }
}
// ---- fixed-size arrays
impl<T: Serialize, const N: usize> Serialize for [T; N] {
    open spec fn enc(&self) -> Option<Seq<u8>> { enc_all(self@) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); }
        let ghost start = s.$output@;
        let ghost fin = *final(s);
        match s.serialize_tuple(N) {
            Err(e) => Err(e),
            Ok(q) => {
                let mut q = q;
                let mut k: usize = 0;
                proof { assert(self@.take(0) =~= Seq::<T>::empty()); assert(q.$output@ =~= start + Seq::<u8>::empty()); }
                while k < N
                    invariant k <= N, self@.len() == N, enc_all(self@.take(k as int)) is Some,
                        (*q).$output@ == start + enc_all(self@.take(k as int))->Some_0, *final(q) == fin,
                    decreases N - k
                {
                    proof { assert(self@.take(k + 1).drop_last() =~= self@.take(k as int)); assert(self@.take(k + 1).last() == self@[k as int]); }
                    match <&mut $Serializer as SerializeTuple>::serialize_element(&mut q, &self[k]) {
                        Err(e) => { proof { if enc_all(self@) is Some { lemma_enc_prefix(self@, k + 1); } } return Err(e); }
                        Ok(_) => {}
                    }
                    proof { assert(q.$output@ =~= start + enc_all(self@.take(k + 1))->Some_0); }
                    k += 1;
                }
                proof { assert(self@.take(self@.len() as int) =~= self@); }
                <&mut $Serializer as SerializeTuple>::end(q)
            }
        }
    }
}
#[verifier::reject_recursive_types(T)]
pub struct V_Array<T, const N: usize> { m: PhantomData<T> }
pub open spec fn arr_rel<'de, T: Deserialize<'de>, const N: usize>(i: Seq<u8>, r: Result<[T; N], Error>, rest: Seq<u8>) -> bool {
    match r { Ok(v) => dec_all(i, v@, rest), Err(e) => dec_fail::<T>(i, N as nat, e) }
}
impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V_Array<T, N> {
    type Value = [T; N];
    open spec fn pre(self, ev: Ev) -> bool { ev == Ev::Seq(N as nat) }
    open spec fn rel(self, ev: Ev, r: Result<[T; N], Error>) -> bool { false }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<[T; N], Error>, rest: Seq<u8>) -> bool { ev is Seq && arr_rel::<T, N>(input, r, rest) }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<[T; N], Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); }
        let v = V_Vec::<T> { m: PhantomData };
        match v.visit_seq(seq) { Ok(x) => Ok(vx_array(x)), Err(e) => Err(e) }
    }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}
impl<'de, T: Deserialize<'de>, const N: usize> Deserialize<'de> for [T; N] {
    open spec fn dec(i: Seq<u8>, r: Result<[T; N], Error>, rest: Seq<u8>) -> bool { arr_rel::<T, N>(i, r, rest) }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<[T; N], Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_tuple(N, V_Array::<T, N> { m: PhantomData }) }
}
impl<'de, T: RT<'de>, const N: usize> RT<'de> for [T; N] {
    open spec fn same(a: [T; N], b: [T; N]) -> bool { same_all(a@, b@) }
    proof fn rt(v: [T; N], e: Seq<u8>, tail: Seq<u8>, r: Result<[T; N], Error>, rest: Seq<u8>) {
        lemma_enc_from(v@, 0);
        assert(v@.take(0) =~= Seq::<T>::empty());
        assert(e =~= enc_from(v@, 0));
        match r {
            Ok(x) => { lemma_dec_all(v@, tail, x@, rest); assert(v@.take(N as int) =~= v@); assert(enc_from(v@, N as int) + tail =~= tail); }
            Err(x) => { lemma_dec_nofail::<T>(v@, tail, x); }
        }
    }
}


impl<T0: Serialize> Serialize for (T0,) {
    open spec fn enc(&self) -> Option<Seq<u8>> { cat(Some(Seq::<u8>::empty()), self.0.enc()) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); }
        match s.serialize_tuple(1) { Err(e) => Err(e), Ok(q) => { let mut q = q;
            proof { assert(q.$output@ =~= q.$output@ + Seq::<u8>::empty()); }
            match <&mut $Serializer as SerializeTuple>::serialize_element(&mut q, &self.0) { Err(e) => return Err(e), Ok(_) => {} }
            proof { assert(self.enc() is Some); assert(q.$output@ =~= old(s).$output@ + self.enc()->Some_0); }
            <&mut $Serializer as SerializeTuple>::end(q)
        } }
    }
}
#[verifier::reject_recursive_types_in_ground_variants(T0)]
pub struct V_Tup1<T0> { m: PhantomData<(T0,)> }
pub open spec fn tup1_rel<'de, T0: Deserialize<'de>>(i: Seq<u8>, r: Result<(T0,), Error>, rest: Seq<u8>) -> bool {
    match r { Ok(v) => <T0 as crate::serde::Deserialize<'de>>::dec(i, Ok(v.0), rest),
      Err(e) => (exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(i, Err(e), m1)) }
}
impl<'de, T0: Deserialize<'de>> Visitor<'de> for V_Tup1<T0> {
    type Value = (T0,);
    open spec fn pre(self, ev: Ev) -> bool { ev == Ev::Seq(1) }
    open spec fn rel(self, ev: Ev, r: Result<(T0,), Error>) -> bool { false }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<(T0,), Error>, rest: Seq<u8>) -> bool { ev is Seq && tup1_rel(input, r, rest) }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<(T0,), Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); }
        let mut seq = seq;
        let ghost m0 = seq.$de.$input@;
        let x0 = match seq.next_element::<T0>() { Err(e) => return Err(e), Ok(None) => return Err(Error::NotImplemented), Ok(Some(x)) => x };
        let ghost m1 = seq.$de.$input@; proof { assert(T0::dec(m0, Ok(x0), m1)); }
        let v = (x0,); proof { assert(T0::dec(m0, Ok(v.0), m1)); let ghost rr = Ok::<(T0,), Error>(v); assert(rr->Ok_0 == v); assert(<T0 as crate::serde::Deserialize<'de>>::dec(m0, Ok(rr->Ok_0.0), m1)); assert(tup1_rel(m0, rr, m1)); }
        return Ok(v);
    }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}

impl<'de, T0: Deserialize<'de>> Deserialize<'de> for (T0,) {
    open spec fn dec(i: Seq<u8>, r: Result<(T0,), Error>, rest: Seq<u8>) -> bool { tup1_rel(i, r, rest) }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<(T0,), Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_tuple(1, V_Tup1::<T0> { m: PhantomData }) }
}
impl<'de, T0: RT<'de>> RT<'de> for (T0,) {
    open spec fn same(a: (T0,), b: (T0,)) -> bool { T0::same(a.0, b.0) }
    proof fn rt(v: (T0,), e: Seq<u8>, tail: Seq<u8>, r: Result<(T0,), Error>, rest: Seq<u8>) {

let e0 = ((v.0).enc())->Some_0; let t1 = tail; let t0 = e0 + t1;
        assert(e + tail =~= t0);
        match r { Ok(x) => { <T0 as RT<'de>>::rt(v.0, e0, t1, Ok(x.0), rest); }, Err(k) => { if exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Err(k), m1) { let m1 = choose|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Err(k), m1); <T0 as RT<'de>>::rt(v.0, e0, t1, Err(k), m1); } } }
    }
}

impl<T0: Serialize, T1: Serialize> Serialize for (T0, T1) {
    open spec fn enc(&self) -> Option<Seq<u8>> { cat(cat(Some(Seq::<u8>::empty()), self.0.enc()), self.1.enc()) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); }
        match s.serialize_tuple(2) { Err(e) => Err(e), Ok(q) => { let mut q = q;
            proof { assert(q.$output@ =~= q.$output@ + Seq::<u8>::empty()); }
            match <&mut $Serializer as SerializeTuple>::serialize_element(&mut q, &self.0) { Err(e) => return Err(e), Ok(_) => {} }
            match <&mut $Serializer as SerializeTuple>::serialize_element(&mut q, &self.1) { Err(e) => return Err(e), Ok(_) => {} }
            proof { assert(self.enc() is Some); assert(q.$output@ =~= old(s).$output@ + self.enc()->Some_0); }
            <&mut $Serializer as SerializeTuple>::end(q)
        } }
    }
}
#[verifier::reject_recursive_types_in_ground_variants(T0)]
pub struct V_Tup2<T0, T1> { m: PhantomData<(T0, T1)> }
pub open spec fn tup2_rel<'de, T0: Deserialize<'de>, T1: Deserialize<'de>>(i: Seq<u8>, r: Result<(T0, T1), Error>, rest: Seq<u8>) -> bool {
    match r { Ok(v) => exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(i, Ok(v.0), m1) && (<T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(v.1), rest)),
      Err(e) => (exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(i, Err(e), m1)) || (exists|x0: T0, m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(i, Ok(x0), m1) && ((exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(e), m2)))) }
}
impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>> Visitor<'de> for V_Tup2<T0, T1> {
    type Value = (T0, T1);
    open spec fn pre(self, ev: Ev) -> bool { ev == Ev::Seq(2) }
    open spec fn rel(self, ev: Ev, r: Result<(T0, T1), Error>) -> bool { false }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<(T0, T1), Error>, rest: Seq<u8>) -> bool { ev is Seq && tup2_rel(input, r, rest) }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<(T0, T1), Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); }
        let mut seq = seq;
        let ghost m0 = seq.$de.$input@;
        let x0 = match seq.next_element::<T0>() { Err(e) => return Err(e), Ok(None) => return Err(Error::NotImplemented), Ok(Some(x)) => x };
        let ghost m1 = seq.$de.$input@; proof { assert(T0::dec(m0, Ok(x0), m1)); }
        let x1 = match seq.next_element::<T1>() { Err(e) => return Err(e), Ok(None) => return Err(Error::NotImplemented), Ok(Some(x)) => x };
        let ghost m2 = seq.$de.$input@; proof { assert(T1::dec(m1, Ok(x1), m2)); }
        let v = (x0, x1); proof { assert(T0::dec(m0, Ok(v.0), m1)); assert(T1::dec(m1, Ok(v.1), m2)); let ghost rr = Ok::<(T0, T1), Error>(v); assert(rr->Ok_0 == v); assert(<T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(rr->Ok_0.1), m2)); assert(exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(m0, Ok(rr->Ok_0.0), m1) && (<T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(rr->Ok_0.1), m2))); assert(tup2_rel(m0, rr, m2)); }
        return Ok(v);
    }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}

impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>> Deserialize<'de> for (T0, T1) {
    open spec fn dec(i: Seq<u8>, r: Result<(T0, T1), Error>, rest: Seq<u8>) -> bool { tup2_rel(i, r, rest) }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<(T0, T1), Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_tuple(2, V_Tup2::<T0, T1> { m: PhantomData }) }
}
impl<'de, T0: RT<'de>, T1: RT<'de>> RT<'de> for (T0, T1) {
    open spec fn same(a: (T0, T1), b: (T0, T1)) -> bool { T0::same(a.0, b.0) && T1::same(a.1, b.1) }
    proof fn rt(v: (T0, T1), e: Seq<u8>, tail: Seq<u8>, r: Result<(T0, T1), Error>, rest: Seq<u8>) {

let e0 = ((v.0).enc())->Some_0; let e1 = ((v.1).enc())->Some_0; let t2 = tail; let t1 = e1 + t2; let t0 = e0 + t1;
        assert(e + tail =~= t0);
        match r { Ok(x) => { let m1 = choose|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Ok(x.0), m1) && (<T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(x.1), rest)); <T0 as RT<'de>>::rt(v.0, e0, t1, Ok(x.0), m1); <T1 as RT<'de>>::rt(v.1, e1, t2, Ok(x.1), rest); }, Err(k) => { if exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Err(k), m1) { let m1 = choose|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Err(k), m1); <T0 as RT<'de>>::rt(v.0, e0, t1, Err(k), m1); } if exists|x0: T0, m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Ok(x0), m1) && ((exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(k), m2))) { let (x0, m1) = choose|x0: T0, m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Ok(x0), m1) && ((exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(k), m2))); <T0 as RT<'de>>::rt(v.0, e0, t1, Ok(x0), m1); if exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(k), m2) { let m2 = choose|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(k), m2); <T1 as RT<'de>>::rt(v.1, e1, t2, Err(k), m2); } } } }
    }
}

impl<T0: Serialize, T1: Serialize, T2: Serialize> Serialize for (T0, T1, T2) {
    open spec fn enc(&self) -> Option<Seq<u8>> { cat(cat(cat(Some(Seq::<u8>::empty()), self.0.enc()), self.1.enc()), self.2.enc()) }
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), Error>) { proof { let _ = <Self as Serialize>::enc(arbitrary()); }
        match s.serialize_tuple(3) { Err(e) => Err(e), Ok(q) => { let mut q = q;
            proof { assert(q.$output@ =~= q.$output@ + Seq::<u8>::empty()); }
            match <&mut $Serializer as SerializeTuple>::serialize_element(&mut q, &self.0) { Err(e) => return Err(e), Ok(_) => {} }
            match <&mut $Serializer as SerializeTuple>::serialize_element(&mut q, &self.1) { Err(e) => return Err(e), Ok(_) => {} }
            match <&mut $Serializer as SerializeTuple>::serialize_element(&mut q, &self.2) { Err(e) => return Err(e), Ok(_) => {} }
            proof { assert(self.enc() is Some); assert(q.$output@ =~= old(s).$output@ + self.enc()->Some_0); }
            <&mut $Serializer as SerializeTuple>::end(q)
        } }
    }
}
#[verifier::reject_recursive_types_in_ground_variants(T0)]
pub struct V_Tup3<T0, T1, T2> { m: PhantomData<(T0, T1, T2)> }
pub open spec fn tup3_rel<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>>(i: Seq<u8>, r: Result<(T0, T1, T2), Error>, rest: Seq<u8>) -> bool {
    match r { Ok(v) => exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(i, Ok(v.0), m1) && (exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(v.1), m2) && (<T2 as crate::serde::Deserialize<'de>>::dec(m2, Ok(v.2), rest))),
      Err(e) => (exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(i, Err(e), m1)) || (exists|x0: T0, m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(i, Ok(x0), m1) && ((exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(e), m2)) || (exists|x1: T1, m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(x1), m2) && ((exists|m3: Seq<u8>| #[trigger] <T2 as crate::serde::Deserialize<'de>>::dec(m2, Err(e), m3)))))) }
}
impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>> Visitor<'de> for V_Tup3<T0, T1, T2> {
    type Value = (T0, T1, T2);
    open spec fn pre(self, ev: Ev) -> bool { ev == Ev::Seq(3) }
    open spec fn rel(self, ev: Ev, r: Result<(T0, T1, T2), Error>) -> bool { false }
    open spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<(T0, T1, T2), Error>, rest: Seq<u8>) -> bool { ev is Seq && tup3_rel(input, r, rest) }
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<(T0, T1, T2), Error>) { proof { let _ = <Self as Visitor<'de>>::pre(arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel(arbitrary(), arbitrary(), arbitrary()); let _ = <Self as Visitor<'de>>::rel_in(arbitrary(), arbitrary(), arbitrary(), arbitrary(), arbitrary()); }
        let mut seq = seq;
        let ghost m0 = seq.$de.$input@;
        let x0 = match seq.next_element::<T0>() { Err(e) => return Err(e), Ok(None) => return Err(Error::NotImplemented), Ok(Some(x)) => x };
        let ghost m1 = seq.$de.$input@; proof { assert(T0::dec(m0, Ok(x0), m1)); }
        let x1 = match seq.next_element::<T1>() { Err(e) => return Err(e), Ok(None) => return Err(Error::NotImplemented), Ok(Some(x)) => x };
        let ghost m2 = seq.$de.$input@; proof { assert(T1::dec(m1, Ok(x1), m2)); }
        let x2 = match seq.next_element::<T2>() { Err(e) => return Err(e), Ok(None) => return Err(Error::NotImplemented), Ok(Some(x)) => x };
        let ghost m3 = seq.$de.$input@; proof { assert(T2::dec(m2, Ok(x2), m3)); }
        let v = (x0, x1, x2); proof { assert(T0::dec(m0, Ok(v.0), m1)); assert(T1::dec(m1, Ok(v.1), m2)); assert(T2::dec(m2, Ok(v.2), m3)); let ghost rr = Ok::<(T0, T1, T2), Error>(v); assert(rr->Ok_0 == v); assert(<T2 as crate::serde::Deserialize<'de>>::dec(m2, Ok(rr->Ok_0.2), m3)); assert(exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(rr->Ok_0.1), m2) && (<T2 as crate::serde::Deserialize<'de>>::dec(m2, Ok(rr->Ok_0.2), m3))); assert(exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(m0, Ok(rr->Ok_0.0), m1) && (exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(rr->Ok_0.1), m2) && (<T2 as crate::serde::Deserialize<'de>>::dec(m2, Ok(rr->Ok_0.2), m3)))); assert(tup3_rel(m0, rr, m3)); }
        return Ok(v);
    }
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_char(self, v: char) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_none(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_unit(self) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, Error>) { crate::vx::vx_panic() }
}

impl<'de, T0: Deserialize<'de>, T1: Deserialize<'de>, T2: Deserialize<'de>> Deserialize<'de> for (T0, T1, T2) {
    open spec fn dec(i: Seq<u8>, r: Result<(T0, T1, T2), Error>, rest: Seq<u8>) -> bool { tup3_rel(i, r, rest) }
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<(T0, T1, T2), Error>) { proof { let _ = <Self as Deserialize<'de>>::dec(arbitrary(), arbitrary(), arbitrary()); } d.deserialize_tuple(3, V_Tup3::<T0, T1, T2> { m: PhantomData }) }
}
impl<'de, T0: RT<'de>, T1: RT<'de>, T2: RT<'de>> RT<'de> for (T0, T1, T2) {
    open spec fn same(a: (T0, T1, T2), b: (T0, T1, T2)) -> bool { T0::same(a.0, b.0) && T1::same(a.1, b.1) && T2::same(a.2, b.2) }
    proof fn rt(v: (T0, T1, T2), e: Seq<u8>, tail: Seq<u8>, r: Result<(T0, T1, T2), Error>, rest: Seq<u8>) {

let e0 = ((v.0).enc())->Some_0; let e1 = ((v.1).enc())->Some_0; let e2 = ((v.2).enc())->Some_0; let t3 = tail; let t2 = e2 + t3; let t1 = e1 + t2; let t0 = e0 + t1;
        assert(e + tail =~= t0);
        match r { Ok(x) => { let m1 = choose|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Ok(x.0), m1) && (exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(x.1), m2) && (<T2 as crate::serde::Deserialize<'de>>::dec(m2, Ok(x.2), rest))); <T0 as RT<'de>>::rt(v.0, e0, t1, Ok(x.0), m1); let m2 = choose|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(x.1), m2) && (<T2 as crate::serde::Deserialize<'de>>::dec(m2, Ok(x.2), rest)); <T1 as RT<'de>>::rt(v.1, e1, t2, Ok(x.1), m2); <T2 as RT<'de>>::rt(v.2, e2, t3, Ok(x.2), rest); }, Err(k) => { if exists|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Err(k), m1) { let m1 = choose|m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Err(k), m1); <T0 as RT<'de>>::rt(v.0, e0, t1, Err(k), m1); } if exists|x0: T0, m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Ok(x0), m1) && ((exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(k), m2)) || (exists|x1: T1, m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(x1), m2) && ((exists|m3: Seq<u8>| #[trigger] <T2 as crate::serde::Deserialize<'de>>::dec(m2, Err(k), m3))))) { let (x0, m1) = choose|x0: T0, m1: Seq<u8>| #[trigger] <T0 as crate::serde::Deserialize<'de>>::dec(t0, Ok(x0), m1) && ((exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(k), m2)) || (exists|x1: T1, m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(x1), m2) && ((exists|m3: Seq<u8>| #[trigger] <T2 as crate::serde::Deserialize<'de>>::dec(m2, Err(k), m3))))); <T0 as RT<'de>>::rt(v.0, e0, t1, Ok(x0), m1); if exists|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(k), m2) { let m2 = choose|m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Err(k), m2); <T1 as RT<'de>>::rt(v.1, e1, t2, Err(k), m2); } if exists|x1: T1, m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(x1), m2) && ((exists|m3: Seq<u8>| #[trigger] <T2 as crate::serde::Deserialize<'de>>::dec(m2, Err(k), m3))) { let (x1, m2) = choose|x1: T1, m2: Seq<u8>| #[trigger] <T1 as crate::serde::Deserialize<'de>>::dec(m1, Ok(x1), m2) && ((exists|m3: Seq<u8>| #[trigger] <T2 as crate::serde::Deserialize<'de>>::dec(m2, Err(k), m3))); <T1 as RT<'de>>::rt(v.1, e1, t2, Ok(x1), m2); if exists|m3: Seq<u8>| #[trigger] <T2 as crate::serde::Deserialize<'de>>::dec(m2, Err(k), m3) { let m3 = choose|m3: Seq<u8>| #[trigger] <T2 as crate::serde::Deserialize<'de>>::dec(m2, Err(k), m3); <T2 as RT<'de>>::rt(v.2, e2, t3, Err(k), m3); } } } } }
    }
}

// ---- whole messages
/// C12: encoding then decoding gives the value back
pub fn vx_roundtrip<'de, T: RT<'de>>(v: &T, b: &'de [u8]) -> (r: Result<T, Error>)
    requires v.enc() == Some(b@)
    ensures r is Ok, T::same(*v, r->Ok_0)
{
    let r = crate::de::from_bytes::<T>(b);
    proof { lemma_roundtrip(*v, b@, r); }
    r
}
pub proof fn lemma_roundtrip<'de, T: RT<'de>>(v: T, b: Seq<u8>, r: Result<T, Error>)
    requires v.enc() == Some(b), crate::spec_de::from_rel(b, r)
    ensures r is Ok, T::same(v, r->Ok_0)
{
    assert(b + Seq::<u8>::empty() =~= b);
    let t = Seq::<u8>::empty();
    match r {
        Ok(x) => { let rest = choose|rest: Seq<u8>| #[trigger] T::dec(b, Ok(x), rest) && rest.len() == 0; T::rt(v, b, t, Ok(x), rest); }
        Err(e) => {
            if exists|rest: Seq<u8>| #[trigger] T::dec(b, Err(e), rest) {
                let rest = choose|rest: Seq<u8>| #[trigger] T::dec(b, Err(e), rest);
                T::rt(v, b, t, Err(e), rest);
            } else {
                let (x, rest) = choose|x: T, rest: Seq<u8>| #[trigger] T::dec(b, Ok(x), rest) && rest.len() > 0 && e == Error::TrailingData(rest.len() as usize);
                T::rt(v, b, t, Ok(x), rest);
            }
        }
    }
}
/// two values with one encoding are the same value
pub proof fn vx_injective<'de, T: RT<'de>>(a: T, b: T, r: Result<T, Error>, rest: Seq<u8>)
    requires a.enc() is Some, a.enc() == b.enc(), T::dec(a.enc()->Some_0, r, rest)
    ensures r is Ok, T::same(a, r->Ok_0), T::same(b, r->Ok_0)
{
    let e = a.enc()->Some_0;
    assert(e + Seq::<u8>::empty() =~= e);
    T::rt(a, e, Seq::<u8>::empty(), r, rest);
    T::rt(b, e, Seq::<u8>::empty(), r, rest);
}
}
