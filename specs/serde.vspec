@@comment
Mirror of serde's traits, specialised to the crate's own serializer and deserializer, with contracts.
@@root
pub mod serde {
use vstd::prelude::*;
pub use self::ser::Serialize;
pub use self::de::Deserialize;
pub use self::ser::Serializer;
pub use self::de::Deserializer;

/// outcome of an encoding step: `e` is what must be appended, None means refusal
pub open spec fn emits<X>(r: Result<X, crate::error::Error>, pre: Seq<u8>, post: Seq<u8>, e: Option<Seq<u8>>) -> bool {
    match e { Some(b) => r is Ok && post =~= pre + b, None => r is Err }
}
pub open spec fn cat(a: Option<Seq<u8>>, b: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match (a, b) { (Some(x), Some(y)) => Some(x + y), _ => None }
}

pub mod ser {
use vstd::prelude::*;
use super::emits;
pub trait Serialize {
    spec fn enc(&self) -> Option<Seq<u8>>;
    fn serialize(&self, s: &mut $Serializer) -> (r: Result<(), crate::error::Error>)
        ensures emits(r, old(s).$output@, final(s).$output@, self.enc());
}
/// SerializeTuple::serialize_element with a ghost account `o + a` of what was written before
pub fn vx_SerializeTuple<T: ?Sized + Serialize>(s: &mut &mut $Serializer, v: &T, Ghost(o): Ghost<Seq<u8>>, Ghost(a): Ghost<Option<Seq<u8>>>) -> (r: Result<(), crate::error::Error>)
    ensures match v.enc() { Some(b) => r is Ok && final(s).$output@ == old(s).$output@ + b, None => r is Err },
        a is Some && v.enc() is Some && old(s).$output@ == o + a->Some_0 ==> final(s).$output@ == o + (a->Some_0 + v.enc()->Some_0),
        *final(*final(s)) == *final(*old(s))
{
    proof { if a is Some && v.enc() is Some { crate::wire::lemma_add_assoc(o, a->Some_0, v.enc()->Some_0); } }
    <&mut $Serializer as SerializeTuple>::serialize_element(s, v)
}
/// SerializeTupleStruct::serialize_field with a ghost account `o + a` of what was written before
pub fn vx_SerializeTupleStruct<T: ?Sized + Serialize>(s: &mut &mut $Serializer, v: &T, Ghost(o): Ghost<Seq<u8>>, Ghost(a): Ghost<Option<Seq<u8>>>) -> (r: Result<(), crate::error::Error>)
    ensures match v.enc() { Some(b) => r is Ok && final(s).$output@ == old(s).$output@ + b, None => r is Err },
        a is Some && v.enc() is Some && old(s).$output@ == o + a->Some_0 ==> final(s).$output@ == o + (a->Some_0 + v.enc()->Some_0),
        *final(*final(s)) == *final(*old(s))
{
    proof { if a is Some && v.enc() is Some { crate::wire::lemma_add_assoc(o, a->Some_0, v.enc()->Some_0); } }
    <&mut $Serializer as SerializeTupleStruct>::serialize_field(s, v)
}
/// SerializeStruct::serialize_field with a ghost account `o + a` of what was written before
pub fn vx_SerializeStruct<T: ?Sized + Serialize>(s: &mut &mut $Serializer, v: &T, Ghost(o): Ghost<Seq<u8>>, Ghost(a): Ghost<Option<Seq<u8>>>) -> (r: Result<(), crate::error::Error>)
    ensures match v.enc() { Some(b) => r is Ok && final(s).$output@ == old(s).$output@ + b, None => r is Err },
        a is Some && v.enc() is Some && old(s).$output@ == o + a->Some_0 ==> final(s).$output@ == o + (a->Some_0 + v.enc()->Some_0),
        *final(*final(s)) == *final(*old(s))
{
    proof { if a is Some && v.enc() is Some { crate::wire::lemma_add_assoc(o, a->Some_0, v.enc()->Some_0); } }
    <&mut $Serializer as SerializeStruct>::serialize_field(s, "", v)
}
pub trait Error: Sized {
    fn custom<T>(msg: T) -> Self;
}
pub trait SerializeSeq {
    type Ok; type Error;
    fn serialize_element<T>(&mut self, value: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeTuple {
    type Ok; type Error;
    fn serialize_element<T>(&mut self, value: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeTupleStruct {
    type Ok; type Error;
    fn serialize_field<T>(&mut self, value: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeTupleVariant {
    type Ok; type Error;
    fn serialize_field<T>(&mut self, value: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeMap {
    type Ok; type Error;
    fn serialize_key<T>(&mut self, key: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn serialize_value<T>(&mut self, value: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeStruct {
    type Ok; type Error;
    fn serialize_field<T>(&mut self, key: &'static str, value: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait SerializeStructVariant {
    type Ok; type Error;
    fn serialize_field<T>(&mut self, key: &'static str, value: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn end(self) -> Result<Self::Ok, Self::Error>;
}
pub trait Serializer: Sized {
    type Ok; type Error;
    type SerializeSeq; type SerializeTuple; type SerializeTupleStruct; type SerializeTupleVariant;
    type SerializeMap; type SerializeStruct; type SerializeStructVariant;
    fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error>;
    fn serialize_i8(self, v: i8) -> Result<Self::Ok, Self::Error>;
    fn serialize_i16(self, v: i16) -> Result<Self::Ok, Self::Error>;
    fn serialize_i32(self, v: i32) -> Result<Self::Ok, Self::Error>;
    fn serialize_i64(self, v: i64) -> Result<Self::Ok, Self::Error>;
    fn serialize_u8(self, v: u8) -> Result<Self::Ok, Self::Error>;
    fn serialize_u16(self, v: u16) -> Result<Self::Ok, Self::Error>;
    fn serialize_u32(self, v: u32) -> Result<Self::Ok, Self::Error>;
    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error>;
    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error>;
    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error>;
    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error>;
    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error>;
    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error>;
    fn serialize_none(self) -> Result<Self::Ok, Self::Error>;
    fn serialize_some<T>(self, v: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn serialize_unit(self) -> Result<Self::Ok, Self::Error>;
    fn serialize_unit_struct(self, name: &'static str) -> Result<Self::Ok, Self::Error>;
    fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str) -> Result<Self::Ok, Self::Error>;
    fn serialize_newtype_struct<T>(self, name: &'static str, value: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn serialize_newtype_variant<T>(self, name: &'static str, variant_index: u32, variant: &'static str, value: &T) -> Result<Self::Ok, Self::Error> where T: ?Sized + Serialize;
    fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error>;
    fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error>;
    fn serialize_tuple_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeTupleStruct, Self::Error>;
    fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> Result<Self::SerializeTupleVariant, Self::Error>;
    fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error>;
    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Self::SerializeStruct, Self::Error>;
    fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> Result<Self::SerializeStructVariant, Self::Error>;
}
}

pub mod de {
use vstd::prelude::*;
use crate::error::Error as XErr;
/// what a deserializer tells a visitor
pub enum Ev {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), F32(f32), F64(f64),
    Char(char), Str(Seq<char>), Bytes(Seq<u8>), None, Unit,
    Some, Newtype, Seq(nat), Map(nat), Enum,
}
pub trait Visitor<'de>: Sized {
    type Value;
    /// events this visitor is prepared for
    spec fn pre(self, ev: Ev) -> bool;
    /// outcome of an event that carries its own data
    spec fn rel(self, ev: Ev, r: Result<Self::Value, XErr>) -> bool;
    /// outcome of an event that lets the visitor read on: from `input` to `rest`
    spec fn rel_in(self, ev: Ev, input: Seq<u8>, r: Result<Self::Value, XErr>, rest: Seq<u8>) -> bool;
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::Bool(v)) ensures self.rel(Ev::Bool(v), r);
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::I8(v)) ensures self.rel(Ev::I8(v), r);
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::I16(v)) ensures self.rel(Ev::I16(v), r);
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::I32(v)) ensures self.rel(Ev::I32(v), r);
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::I64(v)) ensures self.rel(Ev::I64(v), r);
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::U8(v)) ensures self.rel(Ev::U8(v), r);
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::U16(v)) ensures self.rel(Ev::U16(v), r);
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::U32(v)) ensures self.rel(Ev::U32(v), r);
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::U64(v)) ensures self.rel(Ev::U64(v), r);
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::F32(v)) ensures self.rel(Ev::F32(v), r);
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::F64(v)) ensures self.rel(Ev::F64(v), r);
    fn visit_char(self, v: char) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::Char(v)) ensures self.rel(Ev::Char(v), r);
    fn visit_str(self, v: &str) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::Str(v@)) ensures self.rel(Ev::Str(v@), r);
    fn visit_borrowed_str(self, v: &'de str) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::Str(v@)) ensures self.rel(Ev::Str(v@), r);
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::Bytes(v@)) ensures self.rel(Ev::Bytes(v@), r);
    fn visit_borrowed_bytes(self, v: &'de [u8]) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::Bytes(v@)) ensures self.rel(Ev::Bytes(v@), r);
    fn visit_none(self) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::None) ensures self.rel(Ev::None, r);
    fn visit_unit(self) -> (r: Result<Self::Value, XErr>) requires self.pre(Ev::Unit) ensures self.rel(Ev::Unit, r);
    fn visit_some(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, XErr>)
        requires self.pre(Ev::Some) ensures self.rel_in(Ev::Some, old(d).$input@, r, final(d).$input@);
    fn visit_newtype_struct(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, XErr>)
        requires self.pre(Ev::Newtype) ensures self.rel_in(Ev::Newtype, old(d).$input@, r, final(d).$input@);
    fn visit_seq(self, seq: $SeqAccess<'_, 'de>) -> (r: Result<Self::Value, XErr>)
        requires self.pre(Ev::Seq(seq.$count as nat)) ensures self.rel_in(Ev::Seq(seq.$count as nat), old(seq.$de).$input@, r, final(seq.$de).$input@);
    fn visit_map(self, map: $MapAccess<'_, 'de>) -> (r: Result<Self::Value, XErr>)
        requires self.pre(Ev::Map(map.$mcount as nat)) ensures self.rel_in(Ev::Map(map.$mcount as nat), old(map.$mde).$input@, r, final(map.$mde).$input@);
    fn visit_enum(self, data: $EnumAccess<'_, 'de>) -> (r: Result<Self::Value, XErr>)
        requires self.pre(Ev::Enum) ensures self.rel_in(Ev::Enum, old(data.$ede).$input@, r, final(data.$ede).$input@);
}
pub trait Error: Sized {
    fn custom<T>(msg: T) -> Self;
    fn invalid_length<T>(n: usize, x: T) -> Self;
    fn invalid_value<T, U>(n: T, x: U) -> Self;
    fn unknown_variant<T>(n: &str, x: T) -> Self;
    fn duplicate_field(n: &'static str) -> Self;
    fn missing_field(n: &'static str) -> Self;
}
pub enum Unexpected<'a> { Bool(bool), Unsigned(u64), Signed(i64), Float(f64), Char(char), Str(&'a str), Bytes(&'a [u8]), Unit, Option, NewtypeStruct, Seq, Map, Enum, UnitVariant, NewtypeVariant, TupleVariant, StructVariant, Other(&'a str) }
pub trait Deserialize<'de>: Sized {
    spec fn dec(i: Seq<u8>, r: Result<Self, XErr>, rest: Seq<u8>) -> bool;
    fn deserialize(d: &mut $Deserializer<'de>) -> (r: Result<Self, XErr>)
        ensures Self::dec(old(d).$input@, r, final(d).$input@);
}
pub trait DeserializeOwned {}
pub trait DeserializeSeed<'de>: Sized {
    type Value;
    spec fn sdec(self, i: Seq<u8>, r: Result<Self::Value, XErr>, rest: Seq<u8>) -> bool;
    fn deserialize(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, XErr>)
        ensures self.sdec(old(d).$input@, r, final(d).$input@);
}
impl<'de, T: Deserialize<'de>> DeserializeSeed<'de> for core::marker::PhantomData<T> {
    type Value = T;
    open spec fn sdec(self, i: Seq<u8>, r: Result<Self::Value, XErr>, rest: Seq<u8>) -> bool { T::dec(i, r, rest) }
    fn deserialize(self, d: &mut $Deserializer<'de>) -> (r: Result<Self::Value, XErr>) { T::deserialize(d) }
}
/// the seed of a variant selector: sees only the variant index
pub trait VariantSeed<'de>: Sized {
    type Value;
    spec fn vrel(self, idx: int, r: Result<Self::Value, XErr>) -> bool;
    fn deserialize<D: VxIdx>(self, d: D) -> (r: Result<Self::Value, XErr>) ensures self.vrel(d.idx(), r);
}
pub trait VxIdx: Sized { spec fn idx(self) -> int; fn get(self) -> (r: u64) ensures r == self.idx(); }
pub mod value {
    use vstd::prelude::*;
    pub struct UsizeDeserializer<E> { pub value: usize, pub marker: core::marker::PhantomData<E> }
    impl<E> super::VxIdx for UsizeDeserializer<E> { open spec fn idx(self) -> int { self.value as int } fn get(self) -> (r: u64) { self.value as u64 } }
    pub struct U32Deserializer<E> { pub value: u32, pub marker: core::marker::PhantomData<E> }
    impl<E> super::VxIdx for U32Deserializer<E> { open spec fn idx(self) -> int { self.value as int } fn get(self) -> (r: u64) { self.value as u64 } }
    pub struct U64Deserializer<E> { pub value: u64, pub marker: core::marker::PhantomData<E> }
    impl<E> super::VxIdx for U64Deserializer<E> { open spec fn idx(self) -> int { self.value as int } fn get(self) -> (r: u64) { self.value } }
}
pub trait IntoDeserializer<E>: Sized {
    type Deserializer;
    spec fn into_rel(self, r: Self::Deserializer) -> bool;
    fn into_deserializer(self) -> (r: Self::Deserializer) ensures self.into_rel(r);
}
impl<E> IntoDeserializer<E> for usize {
    type Deserializer = value::UsizeDeserializer<E>;
    open spec fn into_rel(self, r: Self::Deserializer) -> bool { r.value == self }
    fn into_deserializer(self) -> (r: Self::Deserializer) { value::UsizeDeserializer { value: self, marker: core::marker::PhantomData } }
}
impl<E> IntoDeserializer<E> for u32 {
    type Deserializer = value::U32Deserializer<E>;
    open spec fn into_rel(self, r: Self::Deserializer) -> bool { r.value == self }
    fn into_deserializer(self) -> (r: Self::Deserializer) { value::U32Deserializer { value: self, marker: core::marker::PhantomData } }
}
impl<E> IntoDeserializer<E> for u64 {
    type Deserializer = value::U64Deserializer<E>;
    open spec fn into_rel(self, r: Self::Deserializer) -> bool { r.value == self }
    fn into_deserializer(self) -> (r: Self::Deserializer) { value::U64Deserializer { value: self, marker: core::marker::PhantomData } }
}
pub trait SeqAccess<'de>: Sized {
    type Error;
    fn next_element_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> where T: DeserializeSeed<'de>;
    fn next_element<T: Deserialize<'de>>(&mut self) -> Result<Option<T>, Self::Error>;
    fn size_hint(&self) -> (r: Option<usize>);
}
pub trait MapAccess<'de>: Sized {
    type Error;
    fn next_key_seed<K>(&mut self, seed: K) -> Result<Option<K::Value>, Self::Error> where K: DeserializeSeed<'de>;
    fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value, Self::Error> where V: DeserializeSeed<'de>;
    fn size_hint(&self) -> (r: Option<usize>);
}
pub trait EnumAccess<'de>: Sized {
    type Error; type Variant;
    fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant), Self::Error> where V: VariantSeed<'de>;
}
pub trait VariantAccess<'de>: Sized {
    type Error;
    fn unit_variant(self) -> Result<(), Self::Error>;
    fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Self::Error> where T: DeserializeSeed<'de>;
    fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>
        requires visitor.pre(Ev::Seq(len as nat));
    fn struct_variant<V>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>
        requires visitor.pre(Ev::Seq(fields@.len()));
}
pub trait Deserializer<'de>: Sized {
    type Error;
    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
    fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: bool| visitor.pre(Ev::Bool(x));
    fn deserialize_i8<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: i8| visitor.pre(Ev::I8(x));
    fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: i16| visitor.pre(Ev::I16(x));
    fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: i32| visitor.pre(Ev::I32(x));
    fn deserialize_i64<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: i64| visitor.pre(Ev::I64(x));
    fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: u8| visitor.pre(Ev::U8(x));
    fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: u16| visitor.pre(Ev::U16(x));
    fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: u32| visitor.pre(Ev::U32(x));
    fn deserialize_u64<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: u64| visitor.pre(Ev::U64(x));
    fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: f32| visitor.pre(Ev::F32(x));
    fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: f64| visitor.pre(Ev::F64(x));
    fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: char| visitor.pre(Ev::Char(x));
    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: Seq<char>| visitor.pre(Ev::Str(x));
    fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: Seq<char>| visitor.pre(Ev::Str(x));
    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: Seq<u8>| visitor.pre(Ev::Bytes(x));
    fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: Seq<u8>| visitor.pre(Ev::Bytes(x));
    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires visitor.pre(Ev::None), visitor.pre(Ev::Some);
    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires visitor.pre(Ev::Unit);
    fn deserialize_unit_struct<V>(self, name: &'static str, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires visitor.pre(Ev::Unit);
    fn deserialize_newtype_struct<V>(self, name: &'static str, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires visitor.pre(Ev::Newtype);
    fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|n: nat| visitor.pre(Ev::Seq(n));
    fn deserialize_tuple<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires visitor.pre(Ev::Seq(len as nat));
    fn deserialize_tuple_struct<V>(self, name: &'static str, len: usize, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires visitor.pre(Ev::Seq(len as nat));
    fn deserialize_map<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|n: nat| visitor.pre(Ev::Map(n));
    fn deserialize_struct<V>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires visitor.pre(Ev::Seq(fields@.len()));
    fn deserialize_enum<V>(self, name: &'static str, variants: &'static [&'static str], visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires visitor.pre(Ev::Enum);
    fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>, requires forall|x: Seq<char>| visitor.pre(Ev::Str(x));
    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error> where V: Visitor<'de>;
}
}
}
@@fill de::Error
invalid_length => fn invalid_length<T>(n: usize, x: T) -> (r: Self) { crate::error::Error::NotImplemented }
invalid_value => fn invalid_value<T, U>(n: T, x: U) -> (r: Self) { crate::error::Error::NotImplemented }
unknown_variant => fn unknown_variant<T>(n: &str, x: T) -> (r: Self) { crate::error::Error::NotImplemented }
duplicate_field => fn duplicate_field(n: &'static str) -> (r: Self) { crate::error::Error::NotImplemented }
missing_field => fn missing_field(n: &'static str) -> (r: Self) { crate::error::Error::NotImplemented }
@@fill Visitor
visit_bool(self, v: bool)
visit_i8(self, v: i8)
visit_i16(self, v: i16)
visit_i32(self, v: i32)
visit_i64(self, v: i64)
visit_u8(self, v: u8)
visit_u16(self, v: u16)
visit_u32(self, v: u32)
visit_u64(self, v: u64)
visit_f32(self, v: f32)
visit_f64(self, v: f64)
visit_char(self, v: char)
visit_str(self, v: &str)
visit_borrowed_str(self, v: &'de str)
visit_bytes(self, v: &[u8])
visit_borrowed_bytes(self, v: &'de [u8])
visit_none(self)
visit_unit(self)
visit_some(self, d: &mut $Deserializer<'de>)
visit_newtype_struct(self, d: &mut $Deserializer<'de>)
visit_seq(self, seq: $SeqAccess<'_, 'de>)
visit_map(self, map: $MapAccess<'_, 'de>)
visit_enum(self, data: $EnumAccess<'_, 'de>)
