#!/usr/bin/env python3
"""Writes serde_xdr.vspec: the contracts of serde-xdr/src/*.rs (repetitive parts are generated)."""
out=[]
def sec(h,b): out.append(f"@@{h}\n{b.strip()}\n")
O="old(self).$output@"; F="final(self).$output@"
def emits(e): return f"ensures crate::serde::emits(r, {O}, {F}, {e})"
sec("drop","")
# ---------------- ser
for t,e in [("bool","be32(if $1 { 1u32 } else { 0u32 })"),("i8","be32(u_of_i32($1 as i32))"),("i16","be32(u_of_i32($1 as i32))"),("i32","be32(u_of_i32($1))"),
  ("i64","be64(u_of_i64($1))"),("u8","be32($1 as u32)"),("u16","be32($1 as u32)"),("u32","be32($1)"),("u64","be64($1)"),("f32","be32(f32_bits($1))"),
  ("f64","be64(f64_bits($1))"),("char","be32($1 as u32)")]:
    sec(f"fn Serializer::serialize_{t}", emits(f"Some({e})"))
sec("fn Serializer::serialize_str", emits("crate::spec_ser::enc_bytes(vstd::utf8::encode_utf8($1@))"))
sec("fn Serializer::serialize_bytes", emits("crate::spec_ser::enc_bytes($1@)"))
sec("fn Serializer::serialize_none", emits("Some(be32(0))"))
sec("fn Serializer::serialize_some", emits("crate::serde::cat(Some(be32(1)), $1.enc())"))
sec("fn Serializer::serialize_unit", emits("Some(crate::Bytes::empty())"))
sec("fn Serializer::serialize_unit_struct", emits("Some(crate::Bytes::empty())"))
sec("fn Serializer::serialize_unit_variant", emits("crate::spec_ser::enc_index($2)"))
sec("fn Serializer::serialize_newtype_struct", emits("$2.enc()"))
sec("fn Serializer::serialize_newtype_variant", emits("crate::serde::cat(crate::spec_ser::enc_index($2), $4.enc())"))
def compound(name, e):
    sec(f"fn Serializer::serialize_{name}", f"""ensures match {e} {{
   Some(b) => r is Ok && (*(r->Ok_0)).$output@ =~= {O} + b && *final(r->Ok_0) == *final(self),
   None => r is Err }}""")
compound("seq","crate::spec_ser::enc_len($1)")
compound("map","crate::spec_ser::enc_len($1)")
compound("tuple","Some(crate::Bytes::empty())")
compound("tuple_struct","Some(crate::Bytes::empty())")
compound("struct","Some(crate::Bytes::empty())")
compound("tuple_variant","crate::spec_ser::enc_index($2)")
compound("struct_variant","crate::spec_ser::enc_index($2)")
for tr,ms in [("SerializeSeq",["element"]),("SerializeTuple",["element"]),("SerializeTupleStruct",["field"]),("SerializeTupleVariant",["field"]),
   ("SerializeMap",["key","value"]),("SerializeStruct",["field"]),("SerializeStructVariant",["field"])]:
    for m in ms:
        v="$2" if tr in("SerializeStruct","SerializeStructVariant") else "$1"
        sec(f"fn {tr}::serialize_{m}", f"ensures crate::serde::emits(r, {O}, {F}, {v}.enc()), *final(*final(self)) == *final(*old(self))")
    sec(f"fn {tr}::end", f"ensures r is Ok, {F} == {O}")
sec("optional SerializeMap::serialize_entry", f"ensures crate::serde::emits(r, {O}, {F}, crate::serde::cat($1.enc(), $2.enc())), *final(*final(self)) == *final(*old(self))")
sec("fn ser::to_bytes","ensures match $1.enc() { Some(b) => r is Ok && (r->Ok_0)@ =~= b, None => r is Err }")
# ---------------- error
for k in ["num::TryFromIntError","array::TryFromSliceError","str::Utf8Error"]:
    sec(f"optional From<{k}>[Error]::from","")
    sec(f"inject VxFrom<{k}>[Error]",f"open spec fn from_rel(e: {k}, r: Self) -> bool {{ !(r is NotEnoughData) && !(r is TrailingData) }}")
sec("module error","""
impl crate::vx::VxFrom<Error> for Error {
    open spec fn from_rel(e: Error, r: Self) -> bool { r == e }
    fn vx_from(e: Error) -> (r: Self) { proof { let _ = <Error as crate::vx::VxFrom<Error>>::from_rel(arbitrary(), arbitrary()); } e }
}
""")
# ---------------- de
I="old(self).$input@"; G="final(self).$input@"
def rd(n,ok):
    return f"""ensures {I}.len() < {n} ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData(({n} - {I}.len()) as usize),
  {I}.len() >= {n} ==> {{ {ok} }}"""
sec("helper Deserializer::read", f"""ensures {I}.len() < $1 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData(($1 - {I}.len()) as usize) && {G} =~= {I},
  {I}.len() >= $1 ==> r is Ok && (r->Ok_0)@ =~= {I}.take($1 as int) && {G} =~= {I}.skip($1 as int)""")
for t,n,e in [("i32",4,"r->Ok_0 == i_of_u32(de32(%s))"%I),("u32",4,"r->Ok_0 == de32(%s)"%I),("i64",8,"r->Ok_0 == i_of_u64(de64(%s))"%I),("u64",8,"r->Ok_0 == de64(%s)"%I),
   ("f32",4,"f32_bits(r->Ok_0) == de32(%s)"%I),("f64",8,"f64_bits(r->Ok_0) == de64(%s)"%I)]:
    sec(f"helper Deserializer::read_{t}", rd(n,f"r is Ok && {e} && {G} =~= {I}.skip({n})"))
sec("helper Deserializer::read_char", rd(4,f"{G} =~= {I}.skip(4) && (if crate::vx::scalar_value(de32({I})) {{ r is Ok && (r->Ok_0) as u32 == de32({I}) }} else {{ r is Err }})"))
sec("helper Deserializer::read_string", f"ensures crate::spec_de::str_rel({I}, r, {G})")
sec("helper Deserializer::read_bytes", f"ensures crate::spec_de::bytes_rel({I}, r, {G})")
def scal(t,n,cond,val,ev):
    b = f"visitor.rel(Ev::{ev}({val}), r)"
    sec(f"fn Deserializer::deserialize_{t}", rd(n, f"{cond}").replace("visitor","$1"))
def EV(k,x): return f"$1.rel(crate::serde::de::Ev::{k}({x}), r) && {G} =~= {I}.skip(N)"
d=f"de32({I})"; di=f"i_of_u32(de32({I}))"
sec("fn Deserializer::deserialize_bool", rd(4, f"({d} == 0 ==> {EV('Bool','false')}) && ({d} == 1 ==> {EV('Bool','true')})".replace("(N)","(4)")))
for t,K,src in [("i8","I8",di),("i16","I16",di),("u8","U8",d),("u16","U16",d)]:
    sec(f"fn Deserializer::deserialize_{t}", rd(4, f"if {t}::MIN as int <= {src} as int && {src} as int <= {t}::MAX as int {{ {EV(K,src+' as '+t)} }} else {{ r is Err }}".replace("(N)","(4)")))
for t,K,n,src in [("i32","I32",4,di),("u32","U32",4,d),("i64","I64",8,f"i_of_u64(de64({I}))"),("u64","U64",8,f"de64({I})")]:
    sec(f"fn Deserializer::deserialize_{t}", rd(n, EV(K,src).replace("(N)",f"({n})")))
for t,K,n in [("f32","F32",4),("f64","F64",8)]:
    b="de32" if n==4 else "de64"
    sec(f"fn Deserializer::deserialize_{t}", rd(n, f"exists|x: {t}| {t}_bits(x) == {b}({I}) && #[trigger] $1.rel(crate::serde::de::Ev::{K}(x), r) && {G} =~= {I}.skip({n})"))
sec("fn Deserializer::deserialize_char", rd(4, f"if crate::vx::scalar_value({d}) {{ exists|c: char| c as u32 == {d} && #[trigger] $1.rel(crate::serde::de::Ev::Char(c), r) && {G} =~= {I}.skip(4) }} else {{ r is Err }}"))
for t in ["str","string"]:
    sec(f"fn Deserializer::deserialize_{t}", f"ensures crate::spec_de::de_str($1, {I}, r, {G})")
sec("fn Deserializer::deserialize_identifier", f"ensures crate::spec_de::de_str($1, {I}, r, {G})")
for t in ["bytes","byte_buf"]:
    sec(f"fn Deserializer::deserialize_{t}", f"ensures crate::spec_de::de_bytes($1, {I}, r, {G})")
sec("fn Deserializer::deserialize_option", rd(4, f"({d} == 0 ==> $1.rel(crate::serde::de::Ev::None, r) && {G} =~= {I}.skip(4)) && ({d} == 1 ==> $1.rel_in(crate::serde::de::Ev::Some, {I}.skip(4), r, {G}))"))
sec("fn Deserializer::deserialize_unit", f"ensures $1.rel(crate::serde::de::Ev::Unit, r), {G} =~= {I}")
sec("fn Deserializer::deserialize_unit_struct", f"ensures $2.rel(crate::serde::de::Ev::Unit, r), {G} =~= {I}")
sec("fn Deserializer::deserialize_newtype_struct", f"ensures $2.rel_in(crate::serde::de::Ev::Newtype, {I}, r, {G})")
sec("fn Deserializer::deserialize_seq", rd(4, f"$1.rel_in(crate::serde::de::Ev::Seq({d} as nat), {I}.skip(4), r, {G})"))
sec("fn Deserializer::deserialize_map", rd(4, f"$1.rel_in(crate::serde::de::Ev::Map({d} as nat), {I}.skip(4), r, {G})"))
sec("fn Deserializer::deserialize_tuple", f"ensures $2.rel_in(crate::serde::de::Ev::Seq($1 as nat), {I}, r, {G})")
sec("fn Deserializer::deserialize_tuple_struct", f"ensures $3.rel_in(crate::serde::de::Ev::Seq($2 as nat), {I}, r, {G})")
sec("fn Deserializer::deserialize_struct", f"ensures $3.rel_in(crate::serde::de::Ev::Seq($2@.len()), {I}, r, {G})")
sec("fn Deserializer::deserialize_enum", f"ensures $3.rel_in(crate::serde::de::Ev::Enum, {I}, r, {G})")
sec("fn Deserializer::deserialize_any", "ensures r is Err")
sec("fn Deserializer::deserialize_ignored_any", "ensures r is Err")
sec("helper Seq::new","ensures r.$count == $1, *r.$de == *old($2), *final(r.$de) == *final($2)")
sec("helper Map::new","ensures r.$mcount == $1, *r.$mde == *old($2), *final(r.$mde) == *final($2)")
sec("helper Enum::new","ensures *r.$ede == *old($1), *final(r.$ede) == *final($1)")
def nxt(cnt,de,seed):
    return f"""ensures
  old(self).{cnt} == 0 ==> r is Ok && r->Ok_0 is None && *final(self).{de} == *old(self).{de} && final(self).{cnt} == 0,
  old(self).{cnt} > 0 ==> r != Ok::<Option<_>, crate::error::Error>(None) && {seed} && final(self).{cnt} == old(self).{cnt} - 1,
  *final(final(self).{de}) == *final(old(self).{de})"""
sec("fn SeqAccess::next_element_seed", nxt("$count","$de","$1.sdec(old(self).$de.$input@, crate::spec_de::unopt(r), final(self).$de.$input@)"))
sec("fn MapAccess::next_key_seed", nxt("$mcount","$mde","$1.sdec(old(self).$mde.$input@, crate::spec_de::unopt(r), final(self).$mde.$input@)"))
sec("fn MapAccess::next_value_seed", """ensures $1.sdec(old(self).$mde.$input@, r, final(self).$mde.$input@), final(self).$mcount == old(self).$mcount,
  *final(final(self).$mde) == *final(old(self).$mde)""")
sec("fn SeqAccess::size_hint","ensures r == Some(self.$count)")
sec("optional MapAccess::size_hint","ensures r is Some ==> r == Some(self.$mcount)")
sec("fill SeqAccess","next_element => fn next_element<T: crate::serde::de::Deserialize<'de>>(&mut self) -> (r: Result<Option<T>, Self::Error>) "+
  nxt("$count","$de","T::dec(old(self).$de.$input@, crate::spec_de::unopt(r), final(self).$de.$input@)").replace("\n"," ")+" { self.next_element_seed(core::marker::PhantomData::<T>) }\nsize_hint => fn size_hint(&self) -> (r: Option<usize>) { None }")
sec("fill MapAccess","size_hint => fn size_hint(&self) -> (r: Option<usize>) { None }")
E0="old(self.$ede).$input@"; E1="final(self.$ede).$input@"
sec("fn EnumAccess::variant_seed", f"""ensures {E0}.len() < 4 ==> r is Err && r->Err_0 == crate::error::Error::NotEnoughData((4 - {E0}.len()) as usize),
  {E0}.len() >= 4 ==> {{ let i = i_of_u32(de32({E0})); if i < 0 {{ r is Err }} else {{
     match r {{
       Ok(p) => $1.vrel(i as int, Ok(p.0)) && p.1.$ede.$input@ == {E0}.skip(4) && *final(p.1.$ede) == *final(self.$ede),
       Err(e) => $1.vrel(i as int, Err(e)),
     }} }} }}""")
sec("fn VariantAccess::unit_variant", f"ensures r is Ok, {E1} == {E0}")
sec("fn VariantAccess::newtype_variant_seed", f"ensures $1.sdec({E0}, r, {E1})")
sec("fn VariantAccess::tuple_variant", f"ensures $2.rel_in(crate::serde::de::Ev::Seq($1 as nat), {E0}, r, {E1})")
sec("fn VariantAccess::struct_variant", f"ensures $2.rel_in(crate::serde::de::Ev::Seq($1@.len()), {E0}, r, {E1})")
sec("fn de::from_bytes","ensures crate::spec_de::from_rel::<T>($1@, r)")

# ---------------- opaque
sec("module opaque","""
use crate::wire::*;
use crate::serde::de::Ev;
""")
sec("root","""
pub mod spec_opaque {
use vstd::prelude::*;
use crate::wire::*;
use crate::error::Error;
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn at(b: Seq<u8>, k: int) -> u8 { if 0 <= k < b.len() { b[k] } else { 0u8 } }
pub open spec fn word(b: Seq<u8>, k: int) -> u32 { de32(seq![at(b, 4 * k), at(b, 4 * k + 1), at(b, 4 * k + 2), at(b, 4 * k + 3)]) }
/// the n bytes of `b` as big-endian words, the last one filled up with zeros
pub open spec fn words(b: Seq<u8>) -> Seq<u32> { Seq::new(((b.len() + 3) / 4) as nat, |k: int| word(b, k)) }
pub open spec fn enc_words(w: Seq<u32>) -> Seq<u8> decreases w.len() {
    if w.len() == 0 { Seq::<u8>::empty() } else { enc_words(w.drop_last()) + be32(w.last()) }
}
pub open spec fn padded(b: Seq<u8>) -> Seq<u8> { b + pad(b.len() as int) }
pub proof fn lemma_words_prefix(b: Seq<u8>, k: int)
    requires 0 <= k <= words(b).len()
    ensures enc_words(words(b).take(k)) == padded(b).take(4 * k), padded(b).len() == 4 * words(b).len()
    decreases k
{
    assert(padded(b).len() == 4 * words(b).len());
    if k > 0 {
        lemma_words_prefix(b, k - 1);
        let w = words(b);
        assert(w.take(k).drop_last() =~= w.take(k - 1));
        assert(w.take(k).last() == word(b, k - 1));
        let q = seq![at(b, 4 * (k - 1)), at(b, 4 * (k - 1) + 1), at(b, 4 * (k - 1) + 2), at(b, 4 * (k - 1) + 3)];
        lemma_be_de32(q);
        assert(q.take(4) =~= q);
        assert(be32(word(b, k - 1)) == q);
        assert(padded(b).take(4 * k) =~= padded(b).take(4 * (k - 1)) + q);
    } else {
        assert(words(b).take(0) =~= Seq::<u32>::empty());
        assert(padded(b).take(0) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_enc_step(all: Seq<u32>, k: int, q: Seq<u8>)
    requires 0 < k <= all.len()
    ensures (q + enc_words(all.take(k - 1))) + be32(all[k - 1]) == q + enc_words(all.take(k))
{
    assert(all.take(k).drop_last() =~= all.take(k - 1));
    lemma_add_assoc(q, enc_words(all.take(k - 1)), be32(all[k - 1]));
}
pub proof fn lemma_words(b: Seq<u8>)
    ensures enc_words(words(b)) == padded(b)
{
    lemma_words_prefix(b, words(b).len() as int);
    assert(words(b).take(words(b).len() as int) =~= words(b));
    assert(padded(b).take(4 * words(b).len() as int) =~= padded(b));
}
pub open spec fn opaque_rel(n: nat, i: Seq<u8>, r: Result<Seq<u8>, Error>, rest: Seq<u8>) -> bool {
    if i.len() >= n + padlen(n as int) { r is Ok && r->Ok_0 =~= i.take(n as int) && rest =~= i.skip(n + padlen(n as int)) }
    else { r is Err && r->Err_0 is NotEnoughData }
}
pub open spec fn var_enc(b: Seq<u8>) -> Option<Seq<u8>> {
    crate::serde::cat(crate::spec_ser::enc_len(if b.len() <= usize::MAX { Some(b.len() as usize) } else { None }), Some(padded(b)))
}
pub open spec fn var_dec(i: Seq<u8>, r: Result<Vec<u8>, Error>, rest: Seq<u8>) -> bool {
    if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) } else { opaque_rel(de32(i) as nat, i.skip(4), vec_view(r), rest) }
}
pub open spec fn fix_dec<const N: usize>(i: Seq<u8>, r: Result<[u8; N], Error>, rest: Seq<u8>) -> bool { opaque_rel(N as nat, i, arr_view(r), rest) }
pub open spec fn s32_dec<T: crate::vx::VxTryFrom<i32>>(i: Seq<u8>, r: Result<T, Error>, rest: Seq<u8>) -> bool {
    if i.len() < 4 { r is Err && r->Err_0 == Error::NotEnoughData((4 - i.len()) as usize) }
    else { exists|q: Result<T, <T as crate::vx::VxTryFrom<i32>>::Error>| #[trigger] T::try_rel(i_of_u32(de32(i)), q)
      && (match q { Ok(t) => r == Ok::<T, Error>(t) && rest =~= i.skip(4), Err(_) => r is Err }) }
}
pub proof fn var_rt(v: Vec<u8>, e: Seq<u8>, tail: Seq<u8>, r: Result<Vec<u8>, Error>, rest: Seq<u8>)
    requires var_enc(v@) == Some(e), var_dec(e + tail, r, rest)
    ensures r is Ok, r->Ok_0@ == v@, rest == tail
{
    let b = v@; let n = b.len() as int;
    assert(e + tail =~= be32(n as u32) + (padded(b) + tail));
    lemma_de_be32(n as u32, padded(b) + tail);
    assert((e + tail).skip(4) =~= padded(b) + tail);
    assert((padded(b) + tail).take(n) =~= b);
    assert((padded(b) + tail).skip(n + padlen(n)) =~= tail);
}
pub proof fn fix_rt<const N: usize>(v: [u8; N], e: Seq<u8>, tail: Seq<u8>, r: Result<[u8; N], Error>, rest: Seq<u8>)
    requires Some(padded(v@)) == Some(e), fix_dec::<N>(e + tail, r, rest)
    ensures r is Ok, r->Ok_0@ == v@, rest == tail
{
    let n = N as int;
    assert((padded(v@) + tail).take(n) =~= v@);
    assert((padded(v@) + tail).skip(n + padlen(n)) =~= tail);
}
pub open spec fn vec_view(r: Result<Vec<u8>, Error>) -> Result<Seq<u8>, Error> { match r { Ok(v) => Ok(v@), Err(e) => Err(e) } }
pub open spec fn arr_view<const N: usize>(r: Result<[u8; N], Error>) -> Result<Seq<u8>, Error> { match r { Ok(v) => Ok(v@), Err(e) => Err(e) } }
}
""")
sec("inject opaque::Visitor[OpaqueVisitor<[u8;N]>]","""
    open spec fn pre(self, ev: crate::serde::de::Ev) -> bool { ev == crate::serde::de::Ev::Seq(N as nat) }
    open spec fn rel(self, ev: crate::serde::de::Ev, r: Result<[u8; N], crate::error::Error>) -> bool { false }
    open spec fn rel_in(self, ev: crate::serde::de::Ev, input: Seq<u8>, r: Result<[u8; N], crate::error::Error>, rest: Seq<u8>) -> bool {
        ev is Seq && crate::spec_opaque::opaque_rel(ev->Seq_0, input, crate::spec_opaque::arr_view(r), rest)
    }
""")
sec("inject opaque::Visitor[OpaqueVisitor<Vec<u8>>]","""
    open spec fn pre(self, ev: crate::serde::de::Ev) -> bool { ev is Seq }
    open spec fn rel(self, ev: crate::serde::de::Ev, r: Result<Vec<u8>, crate::error::Error>) -> bool { false }
    open spec fn rel_in(self, ev: crate::serde::de::Ev, input: Seq<u8>, r: Result<Vec<u8>, crate::error::Error>, rest: Seq<u8>) -> bool {
        ev is Seq && crate::spec_opaque::opaque_rel(ev->Seq_0, input, crate::spec_opaque::vec_view(r), rest)
    }
""")
sec("helper opaque::enumerate_u32","ensures r@ == crate::spec_opaque::words(old($1)@)")
sec("loop opaque::enumerate_u32 0","""
  $let0@ == crate::spec_opaque::words(old($1)@).take($all.len() - $it.rest().len()),
""")
B="old(seq.$de).$input@"
sec("helper opaque::enumerate_u8",f"ensures crate::spec_opaque::opaque_rel($1.$count as nat, old($1.$de).$input@, crate::spec_opaque::vec_view(r), final($1.$de).$input@)")
sec("body opaque::enumerate_u8","""let ghost vxn = $1.$count as int; let ghost vxi = $1.$de.$input@; let ghost vxf = *final($1.$de);""")
sec("loop opaque::enumerate_u8 0","""
  $let1 == vxn, $all.len() == (vxn + 3) / 4, 4 * ($all.len() - $it.rest().len()) <= vxi.len(),
  $let0.$count == vxn - ($all.len() - $it.rest().len()), *final($let0.$de) == vxf,
  $let0.$de.$input@ =~= vxi.skip(4 * ($all.len() - $it.rest().len())),
  $let2@ =~= vxi.take(crate::spec_opaque::min(4 * ($all.len() - $it.rest().len()), vxn)),
""")
sec("after opaque::enumerate_u8 loop0","""let ghost vxk = $all.len() - $it.rest().len() - 1;
  proof { if vxi.len() >= 4 * vxk + 4 { lemma_be_de32(vxi.skip(4 * vxk)); assert(vxi.skip(4 * vxk).skip(4) =~= vxi.skip(4 * vxk + 4)); } }""")
sec("loop opaque::enumerate_u8 1","""
  $all =~= vxi.skip(4 * vxk).take(4), 4 * vxk + 4 <= vxi.len(), $let1 == vxn,
  $let2@ =~= vxi.take(crate::spec_opaque::min(4 * vxk + ($all.len() - $it.rest().len()), vxn)),
""")
sec("helper OpaqueVisitor::new","")
for m in ["fixed","variable"]:
    sec(f"body opaque::{m}::serialize","hide(be32); hide(crate::spec_opaque::words); hide(crate::spec_opaque::padded); let ghost vxf = *final($2); let ghost vxo = $2.$output@;")
    sec(f"after opaque::{m}::serialize loop0_before","let ghost vxq = ($let1).$output@; proof { assert(vxq + crate::spec_opaque::enc_words(Seq::<u32>::empty()) =~= vxq); }")
    sec(f"loop opaque::{m}::serialize 0","*final($let1) == vxf, ($let1).$output@ == vxq + crate::spec_opaque::enc_words($all.take($all.len() - $it.rest().len())),")
    sec(f"after opaque::{m}::serialize loop0_end","proof { crate::spec_opaque::lemma_enc_step($all, $all.len() - $it.rest().len(), vxq); }")
    hdr, q = ("", "") if m == "fixed" else ("lemma_add_assoc(vxo, be32(b@.len() as u32), crate::spec_opaque::padded(b@)); ", " && b@.len() <= u32::MAX && vxq == vxo + be32(b@.len() as u32)")
    sec(f"after opaque::{m}::serialize loop0_after",f"proof {{ assert($all.take($all.len() as int) =~= $all); let b = choose|b: &[u8]| #[trigger] $1.ref_rel(b) && $all == crate::spec_opaque::words(b@){q}; crate::spec_opaque::lemma_words(b@); {hdr}}}")
sec("fn opaque::fixed::serialize",f"""ensures exists|b: &[u8]| #[trigger] $1.ref_rel(b) && crate::serde::emits(r, old($2).$output@, final($2).$output@, Some(crate::spec_opaque::padded(b@)))""")
sec("fn opaque::variable::serialize",f"""ensures exists|b: &[u8]| #[trigger] $1.ref_rel(b) && crate::serde::emits(r, old($2).$output@, final($2).$output@,
   crate::spec_opaque::var_enc(b@))""")
I1="old($1).$input@"; G1="final($1).$input@"
sec("fn opaque::fixed::deserialize",f"""ensures crate::spec_opaque::opaque_rel(N as nat, {I1}, crate::spec_opaque::arr_view(r), {G1})""")
sec("fn opaque::variable::deserialize",f"ensures crate::spec_opaque::var_dec({I1}, r, {G1})")
for m in ["fixed","variable"]: sec(f"module opaque::{m}","use crate::wire::*;")
# ---------------- primitive
sec("module primitive::signed32","use crate::wire::*;")
sec("fn primitive::signed32::serialize","""ensures exists|x: &i32| #[trigger] $1.ref_rel(x) && crate::serde::emits(r, old($2).$output@, final($2).$output@, Some(be32(u_of_i32(*x))))""")
sec("fn primitive::signed32::deserialize",f"ensures crate::spec_opaque::s32_dec::<T>({I1}, r, {G1})")
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import derived
out.append(derived.struct_spec("opaque", "VariableArray", [("data", derived.variable())]))
open(__file__.replace("gen_serde_xdr.py","serde_xdr_gen.vspec"),"w").write("\n".join(out))
