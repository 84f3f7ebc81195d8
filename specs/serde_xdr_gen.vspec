@@drop


@@fn Serializer::serialize_bool
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32(if $1 { 1u32 } else { 0u32 })))

@@fn Serializer::serialize_i8
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32(u_of_i32($1 as i32))))

@@fn Serializer::serialize_i16
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32(u_of_i32($1 as i32))))

@@fn Serializer::serialize_i32
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32(u_of_i32($1))))

@@fn Serializer::serialize_i64
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be64(u_of_i64($1))))

@@fn Serializer::serialize_u8
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32($1 as u32)))

@@fn Serializer::serialize_u16
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32($1 as u32)))

@@fn Serializer::serialize_u32
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32($1)))

@@fn Serializer::serialize_u64
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be64($1)))

@@fn Serializer::serialize_f32
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32(f32_bits($1))))

@@fn Serializer::serialize_f64
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be64(f64_bits($1))))

@@fn Serializer::serialize_char
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32($1 as u32)))

@@fn Serializer::serialize_str
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, crate::spec_ser::enc_bytes(vstd::utf8::encode_utf8($1@)))

@@fn Serializer::serialize_bytes
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, crate::spec_ser::enc_bytes($1@))

@@fn Serializer::serialize_none
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(be32(0)))

@@fn Serializer::serialize_some
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, crate::serde::cat(Some(be32(1)), $1.enc()))

@@fn Serializer::serialize_unit
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(crate::Bytes::empty()))

@@fn Serializer::serialize_unit_struct
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, Some(crate::Bytes::empty()))

@@fn Serializer::serialize_unit_variant
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, crate::spec_ser::enc_index($2))

@@fn Serializer::serialize_newtype_struct
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, $2.enc())

@@fn Serializer::serialize_newtype_variant
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, crate::serde::cat(crate::spec_ser::enc_index($2), $4.enc()))

@@fn Serializer::serialize_seq
ensures match crate::spec_ser::enc_len($1) {
   Some(b) => r is Ok && (*(r->Ok_0)).$output@ =~= old(self).$output@ + b && *final(r->Ok_0) == *final(self),
   None => r is Err }

@@fn Serializer::serialize_map
ensures match crate::spec_ser::enc_len($1) {
   Some(b) => r is Ok && (*(r->Ok_0)).$output@ =~= old(self).$output@ + b && *final(r->Ok_0) == *final(self),
   None => r is Err }

@@fn Serializer::serialize_tuple
ensures match Some(crate::Bytes::empty()) {
   Some(b) => r is Ok && (*(r->Ok_0)).$output@ =~= old(self).$output@ + b && *final(r->Ok_0) == *final(self),
   None => r is Err }

@@fn Serializer::serialize_tuple_struct
ensures match Some(crate::Bytes::empty()) {
   Some(b) => r is Ok && (*(r->Ok_0)).$output@ =~= old(self).$output@ + b && *final(r->Ok_0) == *final(self),
   None => r is Err }

@@fn Serializer::serialize_struct
ensures match Some(crate::Bytes::empty()) {
   Some(b) => r is Ok && (*(r->Ok_0)).$output@ =~= old(self).$output@ + b && *final(r->Ok_0) == *final(self),
   None => r is Err }

@@fn Serializer::serialize_tuple_variant
ensures match crate::spec_ser::enc_index($2) {
   Some(b) => r is Ok && (*(r->Ok_0)).$output@ =~= old(self).$output@ + b && *final(r->Ok_0) == *final(self),
   None => r is Err }

@@fn Serializer::serialize_struct_variant
ensures match crate::spec_ser::enc_index($2) {
   Some(b) => r is Ok && (*(r->Ok_0)).$output@ =~= old(self).$output@ + b && *final(r->Ok_0) == *final(self),
   None => r is Err }

@@fn SerializeSeq::serialize_element
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, $1.enc()), *final(*final(self)) == *final(*old(self))

@@fn SerializeSeq::end
ensures r is Ok, final(self).$output@ == old(self).$output@

@@fn SerializeTuple::serialize_element
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, $1.enc()), *final(*final(self)) == *final(*old(self))

@@fn SerializeTuple::end
ensures r is Ok, final(self).$output@ == old(self).$output@

@@fn SerializeTupleStruct::serialize_field
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, $1.enc()), *final(*final(self)) == *final(*old(self))

@@fn SerializeTupleStruct::end
ensures r is Ok, final(self).$output@ == old(self).$output@

@@fn SerializeTupleVariant::serialize_field
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, $1.enc()), *final(*final(self)) == *final(*old(self))

@@fn SerializeTupleVariant::end
ensures r is Ok, final(self).$output@ == old(self).$output@

@@fn SerializeMap::serialize_key
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, $1.enc()), *final(*final(self)) == *final(*old(self))

@@fn SerializeMap::serialize_value
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, $1.enc()), *final(*final(self)) == *final(*old(self))

@@fn SerializeMap::end
ensures r is Ok, final(self).$output@ == old(self).$output@

@@fn SerializeStruct::serialize_field
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, $2.enc()), *final(*final(self)) == *final(*old(self))

@@fn SerializeStruct::end
ensures r is Ok, final(self).$output@ == old(self).$output@

@@fn SerializeStructVariant::serialize_field
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, $2.enc()), *final(*final(self)) == *final(*old(self))

@@fn SerializeStructVariant::end
ensures r is Ok, final(self).$output@ == old(self).$output@

@@optional SerializeMap::serialize_entry
ensures crate::serde::emits(r, old(self).$output@, final(self).$output@, crate::serde::cat($1.enc(), $2.enc())), *final(*final(self)) == *final(*old(self))

@@fn ser::to_bytes
ensures match $1.enc() { Some(b) => r is Ok && (r->Ok_0)@ =~= b, None => r is Err }

@@optional From<num::TryFromIntError>[Error]::from


@@inject VxFrom<num::TryFromIntError>[Error]
open spec fn from_rel(e: num::TryFromIntError, r: Self) -> bool { !(r is NotEnoughData) && !(r is TrailingData) }

@@optional From<array::TryFromSliceError>[Error]::from


@@inject VxFrom<array::TryFromSliceError>[Error]
open spec fn from_rel(e: array::TryFromSliceError, r: Self) -> bool { !(r is NotEnoughData) && !(r is TrailingData) }

@@optional From<str::Utf8Error>[Error]::from


@@inject VxFrom<str::Utf8Error>[Error]
open spec fn from_rel(e: str::Utf8Error, r: Self) -> bool { !(r is NotEnoughData) && !(r is TrailingData) }

@@module error
impl crate::vx::VxFrom<Error> for Error {
    open spec fn from_rel(e: Error, r: Self) -> bool { r == e }
    fn vx_from(e: Error) -> (r: Self) { proof { let _ = <Error as crate::vx::VxFrom<Error>>::from_rel(arbitrary(), arbitrary()); } e }
}

@@helper Deserializer::read
ensures old(self).$input@.len() < $1 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData(($1 - old(self).$input@.len()) as usize) && final(self).$input@ =~= old(self).$input@,
  old(self).$input@.len() >= $1 ==> r is Ok && (r->Ok_0)@ =~= old(self).$input@.take($1 as int) && final(self).$input@ =~= old(self).$input@.skip($1 as int)

@@helper Deserializer::read_i32
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { r is Ok && r->Ok_0 == i_of_u32(de32(old(self).$input@)) && final(self).$input@ =~= old(self).$input@.skip(4) }

@@helper Deserializer::read_u32
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { r is Ok && r->Ok_0 == de32(old(self).$input@) && final(self).$input@ =~= old(self).$input@.skip(4) }

@@helper Deserializer::read_i64
ensures old(self).$input@.len() < 8 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((8 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 8 ==> { r is Ok && r->Ok_0 == i_of_u64(de64(old(self).$input@)) && final(self).$input@ =~= old(self).$input@.skip(8) }

@@helper Deserializer::read_u64
ensures old(self).$input@.len() < 8 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((8 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 8 ==> { r is Ok && r->Ok_0 == de64(old(self).$input@) && final(self).$input@ =~= old(self).$input@.skip(8) }

@@helper Deserializer::read_f32
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { r is Ok && f32_bits(r->Ok_0) == de32(old(self).$input@) && final(self).$input@ =~= old(self).$input@.skip(4) }

@@helper Deserializer::read_f64
ensures old(self).$input@.len() < 8 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((8 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 8 ==> { r is Ok && f64_bits(r->Ok_0) == de64(old(self).$input@) && final(self).$input@ =~= old(self).$input@.skip(8) }

@@helper Deserializer::read_char
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { final(self).$input@ =~= old(self).$input@.skip(4) && (if crate::vx::scalar_value(de32(old(self).$input@)) { r is Ok && (r->Ok_0) as u32 == de32(old(self).$input@) } else { r is Err }) }

@@helper Deserializer::read_string
ensures crate::spec_de::str_rel(old(self).$input@, r, final(self).$input@)

@@helper Deserializer::read_bytes
ensures crate::spec_de::bytes_rel(old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_bool
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { (de32(old(self).$input@) == 0 ==> $1.rel(crate::serde::de::Ev::Bool(false), r) && final(self).$input@ =~= old(self).$input@.skip(4)) && (de32(old(self).$input@) == 1 ==> $1.rel(crate::serde::de::Ev::Bool(true), r) && final(self).$input@ =~= old(self).$input@.skip(4)) }

@@fn Deserializer::deserialize_i8
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { if i8::MIN as int <= i_of_u32(de32(old(self).$input@)) as int && i_of_u32(de32(old(self).$input@)) as int <= i8::MAX as int { $1.rel(crate::serde::de::Ev::I8(i_of_u32(de32(old(self).$input@)) as i8), r) && final(self).$input@ =~= old(self).$input@.skip(4) } else { r is Err } }

@@fn Deserializer::deserialize_i16
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { if i16::MIN as int <= i_of_u32(de32(old(self).$input@)) as int && i_of_u32(de32(old(self).$input@)) as int <= i16::MAX as int { $1.rel(crate::serde::de::Ev::I16(i_of_u32(de32(old(self).$input@)) as i16), r) && final(self).$input@ =~= old(self).$input@.skip(4) } else { r is Err } }

@@fn Deserializer::deserialize_u8
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { if u8::MIN as int <= de32(old(self).$input@) as int && de32(old(self).$input@) as int <= u8::MAX as int { $1.rel(crate::serde::de::Ev::U8(de32(old(self).$input@) as u8), r) && final(self).$input@ =~= old(self).$input@.skip(4) } else { r is Err } }

@@fn Deserializer::deserialize_u16
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { if u16::MIN as int <= de32(old(self).$input@) as int && de32(old(self).$input@) as int <= u16::MAX as int { $1.rel(crate::serde::de::Ev::U16(de32(old(self).$input@) as u16), r) && final(self).$input@ =~= old(self).$input@.skip(4) } else { r is Err } }

@@fn Deserializer::deserialize_i32
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { $1.rel(crate::serde::de::Ev::I32(i_of_u32(de32(old(self).$input@))), r) && final(self).$input@ =~= old(self).$input@.skip(4) }

@@fn Deserializer::deserialize_u32
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { $1.rel(crate::serde::de::Ev::U32(de32(old(self).$input@)), r) && final(self).$input@ =~= old(self).$input@.skip(4) }

@@fn Deserializer::deserialize_i64
ensures old(self).$input@.len() < 8 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((8 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 8 ==> { $1.rel(crate::serde::de::Ev::I64(i_of_u64(de64(old(self).$input@))), r) && final(self).$input@ =~= old(self).$input@.skip(8) }

@@fn Deserializer::deserialize_u64
ensures old(self).$input@.len() < 8 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((8 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 8 ==> { $1.rel(crate::serde::de::Ev::U64(de64(old(self).$input@)), r) && final(self).$input@ =~= old(self).$input@.skip(8) }

@@fn Deserializer::deserialize_f32
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { exists|x: f32| f32_bits(x) == de32(old(self).$input@) && #[trigger] $1.rel(crate::serde::de::Ev::F32(x), r) && final(self).$input@ =~= old(self).$input@.skip(4) }

@@fn Deserializer::deserialize_f64
ensures old(self).$input@.len() < 8 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((8 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 8 ==> { exists|x: f64| f64_bits(x) == de64(old(self).$input@) && #[trigger] $1.rel(crate::serde::de::Ev::F64(x), r) && final(self).$input@ =~= old(self).$input@.skip(8) }

@@fn Deserializer::deserialize_char
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { if crate::vx::scalar_value(de32(old(self).$input@)) { exists|c: char| c as u32 == de32(old(self).$input@) && #[trigger] $1.rel(crate::serde::de::Ev::Char(c), r) && final(self).$input@ =~= old(self).$input@.skip(4) } else { r is Err } }

@@fn Deserializer::deserialize_str
ensures crate::spec_de::de_str($1, old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_string
ensures crate::spec_de::de_str($1, old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_identifier
ensures crate::spec_de::de_str($1, old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_bytes
ensures crate::spec_de::de_bytes($1, old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_byte_buf
ensures crate::spec_de::de_bytes($1, old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_option
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { (de32(old(self).$input@) == 0 ==> $1.rel(crate::serde::de::Ev::None, r) && final(self).$input@ =~= old(self).$input@.skip(4)) && (de32(old(self).$input@) == 1 ==> $1.rel_in(crate::serde::de::Ev::Some, old(self).$input@.skip(4), r, final(self).$input@)) }

@@fn Deserializer::deserialize_unit
ensures $1.rel(crate::serde::de::Ev::Unit, r), final(self).$input@ =~= old(self).$input@

@@fn Deserializer::deserialize_unit_struct
ensures $2.rel(crate::serde::de::Ev::Unit, r), final(self).$input@ =~= old(self).$input@

@@fn Deserializer::deserialize_newtype_struct
ensures $2.rel_in(crate::serde::de::Ev::Newtype, old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_seq
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { $1.rel_in(crate::serde::de::Ev::Seq(de32(old(self).$input@) as nat), old(self).$input@.skip(4), r, final(self).$input@) }

@@fn Deserializer::deserialize_map
ensures old(self).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self).$input@.len()) as usize),
  old(self).$input@.len() >= 4 ==> { $1.rel_in(crate::serde::de::Ev::Map(de32(old(self).$input@) as nat), old(self).$input@.skip(4), r, final(self).$input@) }

@@fn Deserializer::deserialize_tuple
ensures $2.rel_in(crate::serde::de::Ev::Seq($1 as nat), old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_tuple_struct
ensures $3.rel_in(crate::serde::de::Ev::Seq($2 as nat), old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_struct
ensures $3.rel_in(crate::serde::de::Ev::Seq($2@.len()), old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_enum
ensures $3.rel_in(crate::serde::de::Ev::Enum, old(self).$input@, r, final(self).$input@)

@@fn Deserializer::deserialize_any
ensures r is Err

@@fn Deserializer::deserialize_ignored_any
ensures r is Err

@@helper Seq::new
ensures r.$count == $1, *r.$de == *old($2), *final(r.$de) == *final($2)

@@helper Map::new
ensures r.$mcount == $1, *r.$mde == *old($2), *final(r.$mde) == *final($2)

@@helper Enum::new
ensures *r.$ede == *old($1), *final(r.$ede) == *final($1)

@@fn SeqAccess::next_element_seed
ensures
  old(self).$count == 0 ==> r is Ok && r->Ok_0 is None && *final(self).$de == *old(self).$de && final(self).$count == 0,
  old(self).$count > 0 ==> r != Ok::<Option<_>, crate::error::Error>(None) && $1.sdec(old(self).$de.$input@, crate::spec_de::unopt(r), final(self).$de.$input@) && final(self).$count == old(self).$count - 1,
  *final(final(self).$de) == *final(old(self).$de)

@@fn MapAccess::next_key_seed
ensures
  old(self).$mcount == 0 ==> r is Ok && r->Ok_0 is None && *final(self).$mde == *old(self).$mde && final(self).$mcount == 0,
  old(self).$mcount > 0 ==> r != Ok::<Option<_>, crate::error::Error>(None) && $1.sdec(old(self).$mde.$input@, crate::spec_de::unopt(r), final(self).$mde.$input@) && final(self).$mcount == old(self).$mcount - 1,
  *final(final(self).$mde) == *final(old(self).$mde)

@@fn MapAccess::next_value_seed
ensures $1.sdec(old(self).$mde.$input@, r, final(self).$mde.$input@), final(self).$mcount == old(self).$mcount,
  *final(final(self).$mde) == *final(old(self).$mde)

@@fn SeqAccess::size_hint
ensures r == Some(self.$count)

@@optional MapAccess::size_hint
ensures r is Some ==> r == Some(self.$mcount)

@@fill SeqAccess
next_element => fn next_element<T: crate::serde::de::Deserialize<'de>>(&mut self) -> (r: Result<Option<T>, Self::Error>) ensures   old(self).$count == 0 ==> r is Ok && r->Ok_0 is None && *final(self).$de == *old(self).$de && final(self).$count == 0,   old(self).$count > 0 ==> r != Ok::<Option<_>, crate::error::Error>(None) && T::dec(old(self).$de.$input@, crate::spec_de::unopt(r), final(self).$de.$input@) && final(self).$count == old(self).$count - 1,   *final(final(self).$de) == *final(old(self).$de) { self.next_element_seed(core::marker::PhantomData::<T>) }
size_hint => fn size_hint(&self) -> (r: Option<usize>) { None }

@@fill MapAccess
size_hint => fn size_hint(&self) -> (r: Option<usize>) { None }

@@fn EnumAccess::variant_seed
ensures old(self.$ede).$input@.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - old(self.$ede).$input@.len()) as usize),
  old(self.$ede).$input@.len() >= 4 ==> { let i = i_of_u32(de32(old(self.$ede).$input@)); if i < 0 { r is Err } else {
     match r {
       Ok(p) => $1.vrel(i as int, Ok(p.0)) && p.1.$ede.$input@ == old(self.$ede).$input@.skip(4) && *final(p.1.$ede) == *final(self.$ede),
       Err(e) => $1.vrel(i as int, Err(e)),
     } } }

@@fn VariantAccess::unit_variant
ensures r is Ok, final(self.$ede).$input@ == old(self.$ede).$input@

@@fn VariantAccess::newtype_variant_seed
ensures $1.sdec(old(self.$ede).$input@, r, final(self.$ede).$input@)

@@fn VariantAccess::tuple_variant
ensures $2.rel_in(crate::serde::de::Ev::Seq($1 as nat), old(self.$ede).$input@, r, final(self.$ede).$input@)

@@fn VariantAccess::struct_variant
ensures $2.rel_in(crate::serde::de::Ev::Seq($1@.len()), old(self.$ede).$input@, r, final(self.$ede).$input@)

@@fn de::from_bytes
ensures crate::spec_de::from_rel::<T>($1@, r)

@@module opaque
use crate::wire::*;
use crate::serde::de::Ev;

@@root
pub mod spec_opaque {
use vstd::prelude::*;
use crate::wire::*;
use crate::error::Error;
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn at(b: Seq<u8>, k: int) -> u8 { if 0 <= k < b.len() { b[k] } else { 0u8 } }
pub open spec fn word(b: Seq<u8>, k: int) -> u32 { de32(seq![at(b, 4 * k), at(b, 4 * k + 1), at(b, 4 * k + 2), at(b, 4 * k + 3)]) }
/// the n bytes of `b` as big-endian words, the last one filled up with zeros
pub open spec fn words(b: Seq<u8>) -> Seq<u32> { Seq::new(((b.len() + 3) / 4) as nat, |k: int| word(b, k)) }
pub open spec fn enc_words(w: Seq<u32>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { Seq::<u8>::empty() } else { enc_words(w.drop_last()) + be32(w.last()) }
}
pub open spec fn padded(b: Seq<u8>) -> Seq<u8> { b + pad(b.len() as int) }
pub proof fn lemma_words_prefix(b: Seq<u8>, k: int)
    requires 0 <= k <= words(b).len()
    ensures enc_words(words(b).take(k)) == padded(b).take(4 * k), padded(b).len() == 4 * words(b).len()
    decreases k
{
    assert(padded(b).len() == 4 * words(b).len());
    if k > 0 {
        lemma_words_prefix(b, k - 1);
        let w = words(b);
        assert(w.take(k).drop_last() =~= w.take(k - 1));
        assert(w.take(k).last() == word(b, k - 1));
        let q = seq![at(b, 4 * (k - 1)), at(b, 4 * (k - 1) + 1), at(b, 4 * (k - 1) + 2), at(b, 4 * (k - 1) + 3)];
        lemma_be_de32(q);
        assert(q.take(4) =~= q);
        assert(be32(word(b, k - 1)) == q);
        assert(padded(b).take(4 * k) =~= padded(b).take(4 * (k - 1)) + q);
    } else {
        assert(words(b).take(0) =~= Seq::<u32>::empty());
        assert(padded(b).take(0) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_enc_step(all: Seq<u32>, k: int, q: Seq<u8>)
    requires 0 < k <= all.len()
    ensures (q + enc_words(all.take(k - 1))) + be32(all[k - 1]) == q + enc_words(all.take(k))
{
    assert(all.take(k).drop_last() =~= all.take(k - 1));
    lemma_add_assoc(q, enc_words(all.take(k - 1)), be32(all[k - 1]));
}
pub proof fn lemma_words(b: Seq<u8>)
    ensures enc_words(words(b)) == padded(b)
{
    lemma_words_prefix(b, words(b).len() as int);
    assert(words(b).take(words(b).len() as int) =~= words(b));
    assert(padded(b).take(4 * words(b).len() as int) =~= padded(b));
}
pub open spec fn opaque_rel(n: nat, i: Seq<u8>, r: Result<Seq<u8>, Error>, rest: Seq<u8>) -> bool {
    if i.len() >= n + padlen(n as int) { r is Ok && r->Ok_0 =~= i.take(n as int) && rest =~= i.skip(n + padlen(n as int)) }
    else { r is Err && r->Err_0 is NotEnoughData }
}
pub open spec fn var_enc(b: Seq<u8>) -> Option<Seq<u8>> {
    crate::serde::cat(crate::spec_ser::enc_len(if b.len() <= usize::MAX { Some(b.len() as usize) } else { None }), Some(padded(b)))
}
pub open spec fn var_dec(i: Seq<u8>, r: Result<Vec<u8>, Error>, rest: Seq<u8>) -> bool {
    if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { opaque_rel(de32(i) as nat, i.skip(4), vec_view(r), rest) }
}
pub open spec fn fix_dec<const N: usize>(i: Seq<u8>, r: Result<[u8; N], Error>, rest: Seq<u8>) -> bool { opaque_rel(N as nat, i, arr_view(r), rest) }
pub open spec fn s32_dec<T: crate::vx::VxTryFrom<i32>>(i: Seq<u8>, r: Result<T, Error>, rest: Seq<u8>) -> bool {
    if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) }
    else { exists|q: Result<T, <T as crate::vx::VxTryFrom<i32>>::Error>| #[trigger] T::try_rel(i_of_u32(de32(i)), q)
      && (match q { Ok(t) => r == Ok::<T, Error>(t) && rest =~= i.skip(4), Err(_) => r is Err }) }
}
pub proof fn var_rt(v: Vec<u8>, e: Seq<u8>, tail: Seq<u8>, r: Result<Vec<u8>, Error>, rest: Seq<u8>)
    requires var_enc(v@) == Some(e), var_dec(e + tail, r, rest)
    ensures r is Ok, r->Ok_0@ == v@, rest == tail
{
    let b = v@; let n = b.len() as int;
    assert(e + tail =~= be32(n as u32) + (padded(b) + tail));
    lemma_de_be32(n as u32, padded(b) + tail);
    assert((e + tail).skip(4) =~= padded(b) + tail);
    assert((padded(b) + tail).take(n) =~= b);
    assert((padded(b) + tail).skip(n + padlen(n)) =~= tail);
}
pub proof fn fix_rt<const N: usize>(v: [u8; N], e: Seq<u8>, tail: Seq<u8>, r: Result<[u8; N], Error>, rest: Seq<u8>)
    requires Some(padded(v@)) == Some(e), fix_dec::<N>(e + tail, r, rest)
    ensures r is Ok, r->Ok_0@ == v@, rest == tail
{
    let n = N as int;
    assert((padded(v@) + tail).take(n) =~= v@);
    assert((padded(v@) + tail).skip(n + padlen(n)) =~= tail);
}
pub open spec fn vec_view(r: Result<Vec<u8>, Error>) -> Result<Seq<u8>, Error> { match r { Ok(v) => Ok(v@), Err(e) => Err(e) } }
pub open spec fn arr_view<const N: usize>(r: Result<[u8; N], Error>) -> Result<Seq<u8>, Error> { match r { Ok(v) => Ok(v@), Err(e) => Err(e) } }
}

@@inject opaque::Visitor[OpaqueVisitor<[u8;N]>]
open spec fn pre(self, ev: crate::serde::de::Ev) -> bool { ev == crate::serde::de::Ev::Seq(N as nat) }
    open spec fn rel(self, ev: crate::serde::de::Ev, r: Result<[u8; N], crate::error::Error>) -> bool { false }
    open spec fn rel_in(self, ev: crate::serde::de::Ev, input: Seq<u8>, r: Result<[u8; N], crate::error::Error>, rest: Seq<u8>) -> bool {
        ev is Seq && crate::spec_opaque::opaque_rel(ev->Seq_0, input, crate::spec_opaque::arr_view(r), rest)
    }

@@inject opaque::Visitor[OpaqueVisitor<Vec<u8>>]
open spec fn pre(self, ev: crate::serde::de::Ev) -> bool { ev is Seq }
    open spec fn rel(self, ev: crate::serde::de::Ev, r: Result<Vec<u8>, crate::error::Error>) -> bool { false }
    open spec fn rel_in(self, ev: crate::serde::de::Ev, input: Seq<u8>, r: Result<Vec<u8>, crate::error::Error>, rest: Seq<u8>) -> bool {
        ev is Seq && crate::spec_opaque::opaque_rel(ev->Seq_0, input, crate::spec_opaque::vec_view(r), rest)
    }

@@helper opaque::enumerate_u32
ensures r@ == crate::spec_opaque::words(old($1)@)

@@loop opaque::enumerate_u32 0
$let0@ == crate::spec_opaque::words(old($1)@).take($all.len() - $it.rest().len()),

@@helper opaque::enumerate_u8
ensures crate::spec_opaque::opaque_rel($1.$count as nat, old($1.$de).$input@, crate::spec_opaque::vec_view(r), final($1.$de).$input@)

@@body opaque::enumerate_u8
let ghost vxn = $1.$count as int; let ghost vxi = $1.$de.$input@; let ghost vxf = *final($1.$de);

@@loop opaque::enumerate_u8 0
$let1 == vxn, $all.len() == (vxn + 3) / 4, 4 * ($all.len() - $it.rest().len()) <= vxi.len(),
  $let0.$count == vxn - ($all.len() - $it.rest().len()), *final($let0.$de) == vxf,
  $let0.$de.$input@ =~= vxi.skip(4 * ($all.len() - $it.rest().len())),
  $let2@ =~= vxi.take(crate::spec_opaque::min(4 * ($all.len() - $it.rest().len()), vxn)),

@@after opaque::enumerate_u8 loop0
let ghost vxk = $all.len() - $it.rest().len() - 1;
  proof { if vxi.len() >= 4 * vxk + 4 { lemma_be_de32(vxi.skip(4 * vxk)); assert(vxi.skip(4 * vxk).skip(4) =~= vxi.skip(4 * vxk + 4)); } }

@@loop opaque::enumerate_u8 1
$all =~= vxi.skip(4 * vxk).take(4), 4 * vxk + 4 <= vxi.len(), $let1 == vxn,
  $let2@ =~= vxi.take(crate::spec_opaque::min(4 * vxk + ($all.len() - $it.rest().len()), vxn)),

@@helper OpaqueVisitor::new


@@body opaque::fixed::serialize
hide(be32); hide(crate::spec_opaque::words); hide(crate::spec_opaque::padded); let ghost vxf = *final($2); let ghost vxo = $2.$output@;

@@after opaque::fixed::serialize loop0_before
let ghost vxq = ($let1).$output@; proof { assert(vxq + crate::spec_opaque::enc_words(Seq::<u32>::empty()) =~= vxq); }

@@loop opaque::fixed::serialize 0
*final($let1) == vxf, ($let1).$output@ == vxq + crate::spec_opaque::enc_words($all.take($all.len() - $it.rest().len())),

@@after opaque::fixed::serialize loop0_end
proof { crate::spec_opaque::lemma_enc_step($all, $all.len() - $it.rest().len(), vxq); }

@@after opaque::fixed::serialize loop0_after
proof { assert($all.take($all.len() as int) =~= $all); let b = choose|b: &[u8]| #[trigger] $1.ref_rel(b) && $all == crate::spec_opaque::words(b@); crate::spec_opaque::lemma_words(b@); }

@@body opaque::variable::serialize
hide(be32); hide(crate::spec_opaque::words); hide(crate::spec_opaque::padded); let ghost vxf = *final($2); let ghost vxo = $2.$output@;

@@after opaque::variable::serialize loop0_before
let ghost vxq = ($let1).$output@; proof { assert(vxq + crate::spec_opaque::enc_words(Seq::<u32>::empty()) =~= vxq); }

@@loop opaque::variable::serialize 0
*final($let1) == vxf, ($let1).$output@ == vxq + crate::spec_opaque::enc_words($all.take($all.len() - $it.rest().len())),

@@after opaque::variable::serialize loop0_end
proof { crate::spec_opaque::lemma_enc_step($all, $all.len() - $it.rest().len(), vxq); }

@@after opaque::variable::serialize loop0_after
proof { assert($all.take($all.len() as int) =~= $all); let b = choose|b: &[u8]| #[trigger] $1.ref_rel(b) && $all == crate::spec_opaque::words(b@) && b@.len() <= u32::MAX && vxq == vxo + be32(b@.len() as u32); crate::spec_opaque::lemma_words(b@); lemma_add_assoc(vxo, be32(b@.len() as u32), crate::spec_opaque::padded(b@)); }

@@fn opaque::fixed::serialize
ensures exists|b: &[u8]| #[trigger] $1.ref_rel(b) && crate::serde::emits(r, old($2).$output@, final($2).$output@, Some(crate::spec_opaque::padded(b@)))

@@fn opaque::variable::serialize
ensures exists|b: &[u8]| #[trigger] $1.ref_rel(b) && crate::serde::emits(r, old($2).$output@, final($2).$output@,
   crate::spec_opaque::var_enc(b@))

@@fn opaque::fixed::deserialize
ensures crate::spec_opaque::opaque_rel(N as nat, old($1).$input@, crate::spec_opaque::arr_view(r), final($1).$input@)

@@fn opaque::variable::deserialize
ensures crate::spec_opaque::var_dec(old($1).$input@, r, final($1).$input@)

@@module opaque::fixed
use crate::wire::*;

@@module opaque::variable
use crate::wire::*;

@@module primitive::signed32
use crate::wire::*;

@@fn primitive::signed32::serialize
ensures exists|x: &i32| #[trigger] $1.ref_rel(x) && crate::serde::emits(r, old($2).$output@, final($2).$output@, Some(be32(u_of_i32(*x))))

@@fn primitive::signed32::deserialize
ensures crate::spec_opaque::s32_dec::<T>(old($1).$input@, r, final($1).$input@)

@@root
pub mod spec_VariableArray {

use vstd::prelude::*;
use crate::wire::*;
use crate::error::Error;
use crate::vxstd::*;
use crate::serde::de::*;
use crate::serde::ser::*;

pub open spec fn ok0<'de>(i: Seq<u8>, x_data: Vec<u8>, rest: Seq<u8>) -> bool { crate::spec_opaque::var_dec(i, Ok(x_data), rest) }
pub open spec fn er0<'de>(i: Seq<u8>, e: Error) -> bool { (exists|m_: Seq<u8>| #[trigger] crate::spec_opaque::var_dec(i, Err(e), m_)) }

pub open spec fn enc(v: crate::opaque::VariableArray) -> Option<Seq<u8>> { crate::serde::cat(Some(Seq::<u8>::empty()), crate::spec_opaque::var_enc((v.data)@)) }
pub open spec fn dec<'de>(i: Seq<u8>, r: Result<crate::opaque::VariableArray, Error>, rest: Seq<u8>) -> bool {
    match r { Ok(v) => { ok0(i, v.data, rest) }, Err(e) => { er0(i, e) } }
}
#[verifier::opaque] spec fn tl1(tail: Seq<u8>) -> Seq<u8> { tail }
#[verifier::opaque] spec fn sm1() -> bool { true }
proof fn cc1(c: Option<Seq<u8>>, e: Seq<u8>, tail: Seq<u8>) requires c == Some(e) ensures c is Some, sm1(), e + tail == c->Some_0 + tl1(tail) { reveal(tl1); reveal(sm1); }
#[verifier::opaque] spec fn tl0(a0: Vec<u8>, tail: Seq<u8>) -> Seq<u8> { (crate::spec_opaque::var_enc((a0)@))->Some_0 + tl1(tail) }
#[verifier::opaque] spec fn sm0(a0: Vec<u8>) -> bool { crate::spec_opaque::var_enc((a0)@) is Some && sm1() }
proof fn cc0(c: Option<Seq<u8>>, a0: Vec<u8>, e: Seq<u8>, tail: Seq<u8>)
    requires crate::serde::cat(c, crate::spec_opaque::var_enc((a0)@)) == Some(e)
    ensures c is Some, sm0(a0), e + tail == c->Some_0 + tl0(a0, tail)
{ cc1(crate::serde::cat(c, crate::spec_opaque::var_enc((a0)@)), e, tail); reveal(tl0); reveal(sm0); lemma_add_assoc(c->Some_0, (crate::spec_opaque::var_enc((a0)@))->Some_0, tl1(tail)); }
proof fn ro0<'de>(a0: Vec<u8>, b0: Vec<u8>, tail: Seq<u8>, rest: Seq<u8>)
    requires sm0(a0), ok0(tl0(a0, tail), b0, rest)
    ensures (a0)@ == (b0)@, rest == tail
{  reveal(tl0); reveal(sm0); reveal(tl1); crate::spec_opaque::var_rt(a0, (crate::spec_opaque::var_enc((a0)@))->Some_0, tl1(tail), Ok(b0), rest); }
proof fn re0<'de>(a0: Vec<u8>, tail: Seq<u8>, e: Error)
    requires sm0(a0), er0(tl0(a0, tail), e)
    ensures false
{  reveal(tl0); reveal(sm0); let m = choose|m_: Seq<u8>| #[trigger] crate::spec_opaque::var_dec(tl0(a0, tail), Err(e), m_); crate::spec_opaque::var_rt(a0, (crate::spec_opaque::var_enc((a0)@))->Some_0, tl1(tail), Err(e), m); }
impl<'de> RT<'de> for crate::opaque::VariableArray {
    open spec fn same(a: crate::opaque::VariableArray, b: crate::opaque::VariableArray) -> bool { (a.data)@ == (b.data)@ }
    proof fn rt(v: crate::opaque::VariableArray, e: Seq<u8>, tail: Seq<u8>, r: Result<crate::opaque::VariableArray, Error>, rest: Seq<u8>) {
        cc0(Some(Seq::<u8>::empty()), v.data, e, tail); let t0 = tl0(v.data, tail); lemma_empty_add(t0);
        match r { Ok(x) => { ro0(v.data, x.data, tail, rest); }, Err(k) => { re0(v.data, tail, k); } }
    }
}
}
@@inject opaque::Serialize[VariableArray]
    open spec fn enc(&self) -> Option<Seq<u8>> { crate::spec_VariableArray::enc(*self) }
@@inject opaque::Deserialize[VariableArray]
    open spec fn dec(i: Seq<u8>, r: Result<VariableArray, crate::error::Error>, rest: Seq<u8>) -> bool { crate::spec_VariableArray::dec(i, r, rest) }
@@inject opaque::Visitor[__Visitor_VariableArray<'de>]

    open spec fn pre(self, ev: crate::serde::de::Ev) -> bool { ev == crate::serde::de::Ev::Seq(1) }
    open spec fn rel(self, ev: crate::serde::de::Ev, r: Result<VariableArray, crate::error::Error>) -> bool { false }
    open spec fn rel_in(self, ev: crate::serde::de::Ev, input: Seq<u8>, r: Result<VariableArray, crate::error::Error>, rest: Seq<u8>) -> bool { ev is Seq && crate::spec_VariableArray::dec(input, r, rest) }
@@inject opaque::Serialize[__SerializeWith_VariableArray<'__a>]
    open spec fn enc(&self) -> Option<Seq<u8>> { crate::spec_opaque::var_enc((*self.values.0)@) }
@@inject opaque::Deserialize[__DeserializeWith_VariableArray<'de>]
    open spec fn dec(i: Seq<u8>, r: Result<Self, crate::error::Error>, rest: Seq<u8>) -> bool {
        match r { Ok(w) => crate::spec_opaque::var_dec(i, Ok(w.value), rest), Err(e) => crate::spec_opaque::var_dec(i, Err(e), rest) }
    }
