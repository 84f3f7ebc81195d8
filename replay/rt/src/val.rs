//! A dynamic model of serde's data model over XDR: types, values, an independent reference codec, and the
//! glue that pushes such values through serde_xdr.
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, *};
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Char,
    Str(u8),   // how it is requested: 0 str, 1 string, 2 identifier
    Bytes(u8), // 0 bytes, 1 byte_buf
    Unit, UnitStruct,
    Opt(Box<Ty>), Newtype(Box<Ty>), Seq(Box<Ty>), Map(Box<Ty>, Box<Ty>),
    Tuple(Vec<Ty>), TupleStruct(Vec<Ty>), Struct(Vec<Ty>),
    Enum(Vec<(u32, VTy)>),
    OpVar, OpFix(usize), S32,
    Any, Ignored,
}
#[derive(Clone, Debug, PartialEq)]
pub enum VTy { Unit, Newtype(Ty), Tuple(Vec<Ty>), Struct(Vec<Ty>) }

#[derive(Clone, Debug)]
pub enum Val {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), F32(u32), F64(u64), Char(char),
    Str(String), Bytes(Vec<u8>), Unit, UnitStruct, None, Some(Box<Val>), Newtype(Box<Val>),
    Seq(Vec<Val>), Map(Vec<(Val, Val)>), Tuple(Vec<Val>), TupleStruct(Vec<Val>), Struct(Vec<Val>),
    Var(u32, Box<VVal>),
    OpVar(Vec<u8>), OpFix(Vec<u8>), S32(i32),
    // values only used for encoding
    SeqNoLen(Vec<Val>), MapNoLen(Vec<(Val, Val)>), SeqClaim(usize), MapClaim(usize), Fail,
}
#[derive(Clone, Debug)]
pub enum VVal { Unit, Newtype(Val), Tuple(Vec<Val>), Struct(Vec<Val>) }

impl PartialEq for Val { fn eq(&self, o: &Val) -> bool { format!("{self:?}") == format!("{o:?}") } }

fn be32(o: &mut Vec<u8>, v: u32) { o.extend([(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]); }
fn be64(o: &mut Vec<u8>, v: u64) { be32(o, (v >> 32) as u32); be32(o, v as u32); }
fn padn(n: usize) -> usize { [0, 3, 2, 1][n & 3] }
fn cnt(o: &mut Vec<u8>, n: usize) -> bool { if n as u128 > 0xffff_ffff { return false } be32(o, n as u32); true }
/// the RFC 4506 encoding, or None where encoding has to fail
pub fn enc(v: &Val, o: &mut Vec<u8>) -> bool {
    fn all(x: &[Val], o: &mut Vec<u8>) -> bool { x.iter().all(|v| enc(v, o)) }
    match v {
        Val::Bool(b) => be32(o, if *b { 1 } else { 0 }),
        Val::I8(x) => be32(o, *x as i64 as u32), Val::I16(x) => be32(o, *x as i64 as u32), Val::I32(x) => be32(o, *x as u32),
        Val::U8(x) => be32(o, *x as u32), Val::U16(x) => be32(o, *x as u32), Val::U32(x) => be32(o, *x),
        Val::I64(x) => be64(o, *x as u64), Val::U64(x) => be64(o, *x), Val::F32(x) => be32(o, *x), Val::F64(x) => be64(o, *x),
        Val::Char(c) => be32(o, *c as u32),
        Val::Str(s) => return enc(&Val::Bytes(s.clone().into_bytes()), o),
        Val::Bytes(b) | Val::OpVar(b) => { if !cnt(o, b.len()) { return false } o.extend(b); o.extend(std::iter::repeat(0).take(padn(b.len()))); }
        Val::OpFix(b) => { o.extend(b); o.extend(std::iter::repeat(0).take(padn(b.len()))); }
        Val::S32(x) => be32(o, *x as u32),
        Val::Unit | Val::UnitStruct => {}
        Val::None => be32(o, 0),
        Val::Some(x) => { be32(o, 1); return enc(x, o) }
        Val::Newtype(x) => return enc(x, o),
        Val::Seq(x) => return cnt(o, x.len()) && all(x, o),
        Val::Map(x) => return cnt(o, x.len()) && x.iter().all(|(k, v)| enc(k, o) && enc(v, o)),
        Val::Tuple(x) | Val::TupleStruct(x) | Val::Struct(x) => return all(x, o),
        Val::Var(i, x) => {
            if *i > 0x7fff_ffff { return false }
            be32(o, *i);
            return match &**x { VVal::Unit => true, VVal::Newtype(v) => enc(v, o), VVal::Tuple(v) | VVal::Struct(v) => all(v, o) }
        }
        Val::SeqNoLen(_) | Val::MapNoLen(_) | Val::Fail => return false,
        Val::SeqClaim(n) | Val::MapClaim(n) => return cnt(o, *n),
    }
    true
}

#[derive(Clone, Debug)]
pub enum DErr { Missing(Vec<usize>), NotEnough, Any, Unspec }
type D<T> = Result<T, DErr>;
fn need(i: &[u8], n: usize) -> D<()> { if i.len() < n { Err(DErr::Missing(vec![n - i.len()])) } else { Ok(()) } }
fn w(i: &mut &[u8]) -> D<u32> { need(i, 4)?; let v = (i[0] as u32) << 24 | (i[1] as u32) << 16 | (i[2] as u32) << 8 | i[3] as u32; *i = &i[4..]; Ok(v) }
fn w64(i: &mut &[u8]) -> D<u64> { need(i, 8)?; let h = w(i)? as u64; Ok(h << 32 | w(i)? as u64) }
fn content(i: &mut &[u8], utf8: bool) -> D<Vec<u8>> {
    let n = w(i)? as usize; let p = padn(n);
    let miss = |i: &[u8]| Err(DErr::Missing(vec![n.wrapping_sub(i.len()), n + p - i.len()]));
    if i.len() < n { return miss(i) }
    if utf8 && std::str::from_utf8(&i[..n]).is_err() { return Err(DErr::Any) }
    if i.len() < n + p { return Err(DErr::Missing(vec![n + p - i.len()])) }
    let r = i[..n].to_vec(); *i = &i[n + p..]; Ok(r)
}
fn opaque(i: &mut &[u8], n: usize) -> D<Vec<u8>> {
    let p = padn(n);
    if i.len() < n + p { return Err(DErr::NotEnough) }
    let r = i[..n].to_vec(); *i = &i[n + p..]; Ok(r)
}
pub const S32_OK: [i32; 8] = [0, 1, -1, 7, -7, i32::MAX, i32::MIN, 0x0102_0304];
pub fn dec(t: &Ty, i: &mut &[u8]) -> D<Val> {
    fn all(t: &[Ty], i: &mut &[u8]) -> D<Vec<Val>> { t.iter().map(|t| dec(t, i)).collect() }
    fn int(i: &mut &[u8], lo: i64, hi: i64, signed: bool) -> D<i64> {
        let v = w(i)?; let v = if signed { v as i32 as i64 } else { v as i64 };
        if v < lo || v > hi { Err(DErr::Any) } else { Ok(v) }
    }
    Ok(match t {
        Ty::Bool => match w(i)? { 0 => Val::Bool(false), 1 => Val::Bool(true), _ => return Err(DErr::Unspec) },
        Ty::I8 => Val::I8(int(i, -128, 127, true)? as i8), Ty::I16 => Val::I16(int(i, -32768, 32767, true)? as i16), Ty::I32 => Val::I32(w(i)? as i32),
        Ty::U8 => Val::U8(int(i, 0, 255, false)? as u8), Ty::U16 => Val::U16(int(i, 0, 65535, false)? as u16), Ty::U32 => Val::U32(w(i)?),
        Ty::I64 => Val::I64(w64(i)? as i64), Ty::U64 => Val::U64(w64(i)?), Ty::F32 => Val::F32(w(i)?), Ty::F64 => Val::F64(w64(i)?),
        Ty::Char => { let c = w(i)?; if c > 0x10ffff || (0xd800..0xe000).contains(&c) { return Err(DErr::Any) } Val::Char(char::from_u32(c).unwrap()) }
        Ty::Str(_) => Val::Str(String::from_utf8(content(i, true)?).unwrap()),
        Ty::Bytes(_) => Val::Bytes(content(i, false)?),
        Ty::Unit => Val::Unit, Ty::UnitStruct => Val::UnitStruct,
        Ty::Opt(x) => match w(i)? { 0 => Val::None, 1 => Val::Some(Box::new(dec(x, i)?)), _ => return Err(DErr::Unspec) },
        Ty::Newtype(x) => Val::Newtype(Box::new(dec(x, i)?)),
        Ty::Seq(x) => { let n = w(i)?; let mut r = vec![]; for _ in 0..n { r.push(dec(x, i)?) } Val::Seq(r) }
        Ty::Map(k, v) => { let n = w(i)?; let mut r = vec![]; for _ in 0..n { let a = dec(k, i)?; r.push((a, dec(v, i)?)) } Val::Map(r) }
        Ty::Tuple(x) => Val::Tuple(all(x, i)?), Ty::TupleStruct(x) => Val::TupleStruct(all(x, i)?), Ty::Struct(x) => Val::Struct(all(x, i)?),
        Ty::Enum(vs) => {
            let n = w(i)?;
            if n > 0x7fff_ffff { return Err(DErr::Any) }
            let Some((_, vt)) = vs.iter().find(|(k, _)| *k == n) else { return Err(DErr::Any) };
            Val::Var(n, Box::new(match vt { VTy::Unit => VVal::Unit, VTy::Newtype(t) => VVal::Newtype(dec(t, i)?), VTy::Tuple(t) => VVal::Tuple(all(t, i)?), VTy::Struct(t) => VVal::Struct(all(t, i)?) }))
        }
        Ty::OpVar => { let n = w(i)? as usize; Val::OpVar(opaque(i, n)?) }
        Ty::OpFix(n) => Val::OpFix(opaque(i, *n)?),
        Ty::S32 => { let x = w(i)? as i32; if S32_OK.contains(&x) || (x & 0xff) == 0x33 { Val::S32(x) } else { return Err(DErr::Any) } }
        Ty::Any | Ty::Ignored => return Err(DErr::Any),
    })
}
/// smallest number of bytes a value of the type takes (to avoid announcing billions of empty items)
pub fn min_size(t: &Ty) -> usize {
    match t {
        Ty::Unit | Ty::UnitStruct | Ty::OpFix(0) => 0,
        Ty::Newtype(x) => min_size(x),
        Ty::Tuple(x) | Ty::TupleStruct(x) | Ty::Struct(x) => x.iter().map(min_size).sum(),
        _ => 4,
    }
}

// ---------------------------------------------------------------- through serde_xdr
thread_local! { pub static TY: RefCell<Ty> = const { RefCell::new(Ty::Unit) }; pub static HINT: Cell<Option<(usize, usize)>> = const { Cell::new(None) }; pub static OVERREAD: Cell<bool> = const { Cell::new(false) }; }
pub static NAMES: [&str; 80] = ["f"; 80];

/// an "enumeration" convertible to and from i32
#[derive(Clone, Copy)]
struct S32T(i32);
impl AsRef<i32> for S32T { fn as_ref(&self) -> &i32 { &self.0 } }
impl std::convert::TryFrom<i32> for S32T { type Error = String; fn try_from(x: i32) -> Result<Self, String> { if S32_OK.contains(&x) || (x & 0xff) == 0x33 { Ok(S32T(x)) } else { Err(format!("bad {x}")) } } }
impl Serialize for S32T { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }

macro_rules! fixtab { ($f:ident, $n:expr, $($k:literal)*) => { match $n { $($k => $f!($k),)* _ => panic!("no fixed opaque of that size") } } }
#[macro_export]
macro_rules! fixes { ($f:ident, $n:expr) => { fixtab!($f, $n, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 40 41 47 48 63 64 65 66 67 100 127 128 129 255 256 257 258 512 1000 1023 1024 1025 2047 4096 4099 8191 65535 65536 65537) } }
pub const FIXES: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 40, 41, 47, 48, 63, 64, 65, 66, 67, 100, 127, 128, 129, 255, 256, 257, 258, 512, 1000, 1023, 1024, 1025, 2047, 4096, 4099, 8191, 65535, 65536, 65537];

struct FixArr<'a>(&'a [u8]);
impl AsRef<[u8]> for FixArr<'_> { fn as_ref(&self) -> &[u8] { self.0 } }
impl Serialize for FixArr<'_> { fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(ser::Error::custom("the codec was bypassed")) } }

impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Val::Bool(x) => s.serialize_bool(*x), Val::I8(x) => s.serialize_i8(*x), Val::I16(x) => s.serialize_i16(*x), Val::I32(x) => s.serialize_i32(*x),
            Val::I64(x) => s.serialize_i64(*x), Val::U8(x) => s.serialize_u8(*x), Val::U16(x) => s.serialize_u16(*x), Val::U32(x) => s.serialize_u32(*x),
            Val::U64(x) => s.serialize_u64(*x), Val::F32(x) => s.serialize_f32(f32::from_bits(*x)), Val::F64(x) => s.serialize_f64(f64::from_bits(*x)),
            Val::Char(x) => s.serialize_char(*x), Val::Str(x) => s.serialize_str(x), Val::Bytes(x) => s.serialize_bytes(x),
            Val::Unit => s.serialize_unit(), Val::UnitStruct => s.serialize_unit_struct("U"),
            Val::None => s.serialize_none(), Val::Some(x) => s.serialize_some(&**x), Val::Newtype(x) => s.serialize_newtype_struct("N", &**x),
            Val::Seq(x) => { let mut q = s.serialize_seq(Some(x.len()))?; for v in x { q.serialize_element(v)? } q.end() }
            Val::SeqNoLen(x) => { let mut q = s.serialize_seq(None)?; for v in x { q.serialize_element(v)? } q.end() }
            Val::SeqClaim(n) => s.serialize_seq(Some(*n))?.end(),
            Val::MapClaim(n) => s.serialize_map(Some(*n))?.end(),
            Val::Map(x) => { let mut q = s.serialize_map(Some(x.len()))?; for (i, (k, v)) in x.iter().enumerate() { if i % 2 == 0 { q.serialize_key(k)?; q.serialize_value(v)? } else { q.serialize_entry(k, v)? } } q.end() }
            Val::MapNoLen(x) => { let mut q = s.serialize_map(None)?; for (k, v) in x { q.serialize_entry(k, v)? } q.end() }
            Val::Tuple(x) => { let mut q = s.serialize_tuple(x.len())?; for v in x { q.serialize_element(v)? } q.end() }
            Val::TupleStruct(x) => { let mut q = s.serialize_tuple_struct("T", x.len())?; for v in x { q.serialize_field(v)? } q.end() }
            Val::Struct(x) => { let mut q = s.serialize_struct("S", x.len())?; for v in x { q.serialize_field("f", v)? } q.end() }
            Val::Var(i, x) => match &**x {
                VVal::Unit => s.serialize_unit_variant("E", *i, "V"),
                VVal::Newtype(v) => s.serialize_newtype_variant("E", *i, "V", v),
                VVal::Tuple(x) => { let mut q = s.serialize_tuple_variant("E", *i, "V", x.len())?; for v in x { q.serialize_field(v)? } q.end() }
                VVal::Struct(x) => { let mut q = s.serialize_struct_variant("E", *i, "V", x.len())?; for v in x { q.serialize_field("f", v)? } q.end() }
            },
            Val::OpVar(x) => serde_xdr::opaque::variable::serialize(&FixArr(x), s),
            Val::OpFix(x) => serde_xdr::opaque::fixed::serialize(&FixArr(x), s),
            Val::S32(x) => serde_xdr::primitive::signed32::serialize(&S32T(*x), s),
            Val::Fail => Err(ser::Error::custom("refused")),
        }
    }
}

pub struct Dyn(pub Val);
impl<'de> de::Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> { let t = TY.with(|t| t.borrow().clone()); Ok(Dyn(Seed(&t).deserialize(d)?)) }
}
struct Seed<'t>(&'t Ty);
impl<'de, 't> DeserializeSeed<'de> for Seed<'t> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let v = V(self.0);
        match self.0 {
            Ty::Bool => d.deserialize_bool(v), Ty::I8 => d.deserialize_i8(v), Ty::I16 => d.deserialize_i16(v), Ty::I32 => d.deserialize_i32(v), Ty::I64 => d.deserialize_i64(v),
            Ty::U8 => d.deserialize_u8(v), Ty::U16 => d.deserialize_u16(v), Ty::U32 => d.deserialize_u32(v), Ty::U64 => d.deserialize_u64(v),
            Ty::F32 => d.deserialize_f32(v), Ty::F64 => d.deserialize_f64(v), Ty::Char => d.deserialize_char(v),
            Ty::Str(0) => d.deserialize_str(v), Ty::Str(1) => d.deserialize_string(v), Ty::Str(_) => d.deserialize_identifier(v),
            Ty::Bytes(0) => d.deserialize_bytes(v), Ty::Bytes(_) => d.deserialize_byte_buf(v),
            Ty::Unit => d.deserialize_unit(v), Ty::UnitStruct => d.deserialize_unit_struct("U", v),
            Ty::Opt(_) => d.deserialize_option(v), Ty::Newtype(_) => d.deserialize_newtype_struct("N", v),
            Ty::Seq(_) => d.deserialize_seq(v), Ty::Map(..) => d.deserialize_map(v),
            Ty::Tuple(x) => d.deserialize_tuple(x.len(), v), Ty::TupleStruct(x) => d.deserialize_tuple_struct("T", x.len(), v),
            Ty::Struct(x) => d.deserialize_struct("S", &NAMES[..x.len()], v),
            Ty::Enum(x) => d.deserialize_enum("E", &NAMES[..x.len()], v),
            Ty::OpVar => Ok(Val::OpVar(serde_xdr::opaque::variable::deserialize(d)?)),
            Ty::OpFix(n) => { macro_rules! f { ($k:literal) => { Val::OpFix(serde_xdr::opaque::fixed::deserialize::<$k, D>(d)?.to_vec()) } } Ok(fixes!(f, *n)) }
            Ty::S32 => Ok(Val::S32(serde_xdr::primitive::signed32::deserialize::<S32T, D>(d)?.0)),
            Ty::Any => d.deserialize_any(v), Ty::Ignored => d.deserialize_ignored_any(v),
        }
    }
}
struct V<'t>(&'t Ty);
fn hint(h: Option<usize>, want: usize) { if let Some(k) = h { if k != want { HINT.with(|c| c.set(Some((k, want)))) } } }
macro_rules! vis { ($m:ident, $t:ty, $p:pat, $e:expr) => { fn $m<E: de::Error>(self, v: $t) -> Result<Val, E> { match self.0 { $p => Ok($e(v)), t => Err(E::custom(format!("a {} where {t:?} was requested", stringify!($t)))) } } } }
impl<'de, 't> Visitor<'de> for V<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) }
    vis!(visit_bool, bool, Ty::Bool, Val::Bool); vis!(visit_i8, i8, Ty::I8, Val::I8); vis!(visit_i16, i16, Ty::I16, Val::I16); vis!(visit_i32, i32, Ty::I32, Val::I32);
    vis!(visit_i64, i64, Ty::I64, Val::I64); vis!(visit_u8, u8, Ty::U8, Val::U8); vis!(visit_u16, u16, Ty::U16, Val::U16); vis!(visit_u32, u32, Ty::U32, Val::U32);
    vis!(visit_u64, u64, Ty::U64, Val::U64); vis!(visit_f32, f32, Ty::F32, |x: f32| Val::F32(x.to_bits())); vis!(visit_f64, f64, Ty::F64, |x: f64| Val::F64(x.to_bits()));
    vis!(visit_char, char, Ty::Char, Val::Char); vis!(visit_str, &str, Ty::Str(_), |x: &str| Val::Str(x.to_string()));
    vis!(visit_bytes, &[u8], Ty::Bytes(_), |x: &[u8]| Val::Bytes(x.to_vec()));
    fn visit_none<E: de::Error>(self) -> Result<Val, E> { match self.0 { Ty::Opt(_) => Ok(Val::None), _ => Err(E::custom("none")) } }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> { match self.0 { Ty::Unit => Ok(Val::Unit), Ty::UnitStruct => Ok(Val::UnitStruct), _ => Err(E::custom("unit")) } }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { match self.0 { Ty::Opt(x) => Ok(Val::Some(Box::new(Seed(x).deserialize(d)?))), _ => Err(de::Error::custom("some")) } }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { match self.0 { Ty::Newtype(x) => Ok(Val::Newtype(Box::new(Seed(x).deserialize(d)?))), _ => Err(de::Error::custom("newtype")) } }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let many = |a: &mut A, t: &[Ty]| -> Result<Vec<Val>, A::Error> {
            let mut r = vec![];
            for (k, t) in t.iter().enumerate() {
                hint(a.size_hint(), t_left(k, 0) + 0 + (self.0.arity() - k));
                match a.next_element_seed(Seed(t))? { Some(v) => r.push(v), None => return Err(de::Error::custom("too few items offered")) }
            }
            hint(a.size_hint(), 0);
            if r.len() % 2 == 0 && a.next_element_seed(Seed(&Ty::U32))?.is_some() { OVERREAD.with(|o| o.set(true)); }
            Ok(r)
        };
        Ok(match self.0 {
            Ty::Seq(t) => {
                let mut r = vec![]; let n0 = a.size_hint();
                while let Some(v) = a.next_element_seed(Seed(t))? { r.push(v); if let Some(n0) = n0 { hint(a.size_hint(), n0.wrapping_sub(r.len())) } }
                if let Some(n0) = n0 { hint(Some(n0), r.len()) }
                if a.next_element_seed(Seed(t))?.is_some() { OVERREAD.with(|o| o.set(true)); }
                Val::Seq(r)
            }
            Ty::Tuple(t) => Val::Tuple(many(&mut a, t)?), Ty::TupleStruct(t) => Val::TupleStruct(many(&mut a, t)?), Ty::Struct(t) => Val::Struct(many(&mut a, t)?),
            t => return Err(de::Error::custom(format!("a sequence where {t:?} was requested"))),
        })
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let Ty::Map(k, v) = self.0 else { return Err(de::Error::custom("map")) };
        let mut r = vec![]; let n0 = a.size_hint();
        loop {
            if r.len() % 2 == 1 { match a.next_entry_seed(Seed(k), Seed(v))? { Some(e) => r.push(e), None => break } }
            else { match a.next_key_seed(Seed(k))? { Some(x) => { let y = a.next_value_seed(Seed(v))?; r.push((x, y)) } None => break } }
            if let Some(n0) = n0 { hint(a.size_hint(), n0.wrapping_sub(r.len())) }
        }
        if let Some(n0) = n0 { hint(Some(n0), r.len()) }
        if a.next_key_seed(Seed(k))?.is_some() { OVERREAD.with(|o| o.set(true)); }
        Ok(Val::Map(r))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let Ty::Enum(vs) = self.0 else { return Err(de::Error::custom("enum")) };
        let (idx, var) = a.variant_seed(Idx(vs))?;
        let vt = &vs.iter().find(|(k, _)| *k == idx).unwrap().1;
        Ok(Val::Var(idx, Box::new(match vt {
            VTy::Unit => { var.unit_variant()?; VVal::Unit }
            VTy::Newtype(t) => VVal::Newtype(var.newtype_variant_seed(Seed(t))?),
            VTy::Tuple(t) => { let tt = Ty::Tuple(t.clone()); match var.tuple_variant(t.len(), V(&tt))? { Val::Tuple(x) => VVal::Tuple(x), _ => unreachable!() } }
            VTy::Struct(t) => { let tt = Ty::Struct(t.clone()); match var.struct_variant(&NAMES[..t.len()], V(&tt))? { Val::Struct(x) => VVal::Struct(x), _ => unreachable!() } }
        })))
    }
}
fn t_left(_: usize, x: usize) -> usize { x }
impl Ty { fn arity(&self) -> usize { match self { Ty::Tuple(x) | Ty::TupleStruct(x) | Ty::Struct(x) => x.len(), _ => 0 } } }
struct Idx<'t>(&'t [(u32, VTy)]);
impl<'de> DeserializeSeed<'de> for Idx<'_> {
    type Value = u32;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u32, D::Error> { d.deserialize_identifier(self) }
}
impl<'de> Visitor<'de> for Idx<'_> {
    type Value = u32;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "index") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u32, E> { if self.0.iter().any(|(k, _)| *k as u64 == v) { Ok(v as u32) } else { Err(E::custom("unknown index")) } }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<u32, E> { if self.0.iter().any(|(k, _)| *k as i64 == v) { Ok(v as u32) } else { Err(E::custom("unknown index")) } }
}
