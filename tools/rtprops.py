"""Which functions decide which property of the runtime crate: core functions carry the property's own contracts,
support functions are the helpers whose contracts they rest on (regular expressions over function ids)."""
RD = [r"Deserializer::read", r"From<"]
ACC = [r"SeqAccess::", r"Seq::new", r"MapAccess::", r"Map::new"]
SC = "bool|i8|i16|i32|i64|u8|u16|u32|u64|f32|f64|char"
P = {
 "C01": ([rf"Serializer::serialize_({SC})$"], [r"ser::to_bytes"]),
 "C02": ([r"Serializer::serialize_(str|bytes)$"], [r"ser::to_bytes", r"From<"]),
 "C03": ([r"Serializer::serialize_(seq|map)$", r"SerializeSeq::", r"SerializeMap::"], [r"ser::to_bytes", r"From<"]),
 "C04": ([r"Serializer::serialize_(tuple|tuple_struct|struct|newtype_struct|unit|unit_struct)$", r"SerializeTuple::", r"SerializeTupleStruct::", r"SerializeStruct::", r"ser::to_bytes"], []),
 "C05": ([r"Serializer::serialize_(unit_variant|newtype_variant|tuple_variant|struct_variant|none|some)$", r"SerializeTupleVariant::", r"SerializeStructVariant::"], [r"ser::to_bytes", r"From<"]),
 "C06": ([rf"Deserializer::deserialize_({SC})$"], RD),
 "C07": ([r"Deserializer::deserialize_(str|string|bytes|byte_buf|identifier)$"], RD),
 "C08": ([r"Deserializer::deserialize_(seq|map)$", r"SeqAccess::", r"MapAccess::"], RD + [r"Seq::new", r"Map::new"]),
 "C09": ([r"Deserializer::deserialize_(tuple|tuple_struct|struct|newtype_struct|unit|unit_struct|option|enum)$", r"EnumAccess::", r"VariantAccess::"], RD + ACC + [r"Enum::new"]),
 "C10": ([r"Deserializer::deserialize_", r"EnumAccess::", r"VariantAccess::", r"SeqAccess::", r"MapAccess::", r"Visitor<'de>\[Opaque", r"opaque::enumerate_u8", r"opaque::(fixed|variable)::deserialize", r"signed32::deserialize", r"de::from_bytes"], RD + [r"Seq::new", r"Map::new", r"Enum::new", r"OpaqueVisitor::new"]),
 "C11": ([r"de::from_bytes"], RD),
 "C12": ([r"ser::to_bytes", r"de::from_bytes", r"Serializer::", r"Serialize\w+::", r"Deserializer::", r"\w+Access::", r"opaque::", r"signed32::", r"OpaqueVisitor"], [r"."]),
 "C13": ([r"opaque::", r"OpaqueVisitor"], RD + ACC + [r"SerializeSeq::", r"SerializeTuple::", r"Serializer::serialize_(seq|tuple|u32)$", r"Deserializer::deserialize_(seq|tuple|u32)$"]),
 "C14": ([r"signed32::"], RD + [r"Serializer::serialize_i32$", r"Deserializer::deserialize_i32$"]),
}
# lemma functions of the round-trip theory counted for C12
LEMMAS = {"C12": [r"^g::vxstd::", r"^g::spec_", r"^g::wire::"], "C13": [r"^g::spec_opaque::", r"^g::wire::"]}
