// Reference codec for concrete types and the comparison of the code under test with it (included by the
// generated replay crates). usage of the binary: PROP SEED ROUNDS OUT
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct R(u64);
impl R {
    pub fn n(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn below(&mut self, k: usize) -> usize { if k == 0 { 0 } else { (self.n() % k as u64) as usize } }
    pub fn bits(&mut self) -> u64 {
        let b = [0u64, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 31, 32, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, u64::MAX >> 1, 1 << 63, u64::MAX];
        match self.below(3) { 0 => b[self.below(b.len())], 1 => self.n(), _ => (self.n() % 40).wrapping_sub(20) }
    }
    pub fn len(&mut self, d: usize) -> usize { if d > 5 { self.below(2) } else { match self.below(8) { 0 => 0, 1..=5 => self.below(4), 6 => self.below(9), _ => self.below(24) } } }
}
/// Short: input missing, Bad: must be refused, Unspec: no statement
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum E { Bad, Unspec }
pub type D<T> = Result<T, E>;
pub fn take<'a>(i: &mut &'a [u8], n: usize) -> D<&'a [u8]> { if i.len() < n { return Err(E::Bad) } let (a, b) = i.split_at(n); *i = b; Ok(a) }
pub fn word(i: &mut &[u8]) -> D<u32> { let b = take(i, 4)?; Ok(((b[0] as u32) << 24) | ((b[1] as u32) << 16) | ((b[2] as u32) << 8) | b[3] as u32) }
pub fn put(o: &mut Vec<u8>, v: u32) { o.push((v >> 24) as u8); o.push((v >> 16) as u8); o.push((v >> 8) as u8); o.push(v as u8); }
pub fn padn(n: usize) -> usize { [0, 3, 2, 1][n & 3] }
pub fn put_fixed(o: &mut Vec<u8>, b: &[u8]) { o.extend(b); for _ in 0..padn(b.len()) { o.push(0) } }
pub fn put_var(o: &mut Vec<u8>, b: &[u8]) { put(o, b.len() as u32); put_fixed(o, b) }
pub fn get_fixed(i: &mut &[u8], n: usize) -> D<Vec<u8>> { let r = take(i, n)?.to_vec(); take(i, padn(n))?; Ok(r) }
pub fn get_var(i: &mut &[u8]) -> D<Vec<u8>> { let n = word(i)? as usize; get_fixed(i, n) }
pub fn gen_bytes(r: &mut R, d: usize) -> Vec<u8> { let n = r.len(d); (0..n).map(|_| r.n() as u8).collect() }
pub fn gen_n(r: &mut R, n: usize) -> Vec<u8> { (0..n).map(|_| r.n() as u8).collect() }

pub trait Ref: Sized {
    fn gen(r: &mut R, d: usize) -> Self;
    fn enc(&self, o: &mut Vec<u8>);
    fn dec(i: &mut &[u8]) -> D<Self>;
}
macro_rules! small { ($($t:ty)*) => { $(impl Ref for $t {
    fn gen(r: &mut R, _: usize) -> Self { r.bits() as $t }
    fn enc(&self, o: &mut Vec<u8>) { put(o, *self as i64 as u32) }
    fn dec(i: &mut &[u8]) -> D<Self> { let w = word(i)?; let v = if <$t>::MIN == 0 { w as i64 } else { w as i32 as i64 }; if v < <$t>::MIN as i64 || v > <$t>::MAX as i64 { Err(E::Bad) } else { Ok(v as $t) } }
})* } }
small!(u8 u16 u32 i8 i16 i32);
macro_rules! big { ($($t:ty)*) => { $(impl Ref for $t {
    fn gen(r: &mut R, _: usize) -> Self { r.bits() as $t }
    fn enc(&self, o: &mut Vec<u8>) { let v = *self as u64; put(o, (v >> 32) as u32); put(o, v as u32) }
    fn dec(i: &mut &[u8]) -> D<Self> { if i.len() < 8 { return Err(E::Bad) } let h = word(i)? as u64; Ok((h << 32 | word(i)? as u64) as $t) }
})* } }
big!(u64 i64);
impl Ref for f32 { fn gen(r: &mut R, _: usize) -> f32 { f32::from_bits(r.bits() as u32) } fn enc(&self, o: &mut Vec<u8>) { put(o, self.to_bits()) } fn dec(i: &mut &[u8]) -> D<f32> { Ok(f32::from_bits(word(i)?)) } }
impl Ref for f64 { fn gen(r: &mut R, _: usize) -> f64 { f64::from_bits(r.bits()) } fn enc(&self, o: &mut Vec<u8>) { self.to_bits().enc(o) } fn dec(i: &mut &[u8]) -> D<f64> { Ok(f64::from_bits(u64::dec(i)?)) } }
impl Ref for bool { fn gen(r: &mut R, _: usize) -> bool { r.below(2) == 1 } fn enc(&self, o: &mut Vec<u8>) { put(o, *self as u32) } fn dec(i: &mut &[u8]) -> D<bool> { match word(i)? { 0 => Ok(false), 1 => Ok(true), _ => Err(E::Unspec) } } }
impl Ref for () { fn gen(_: &mut R, _: usize) {} fn enc(&self, _: &mut Vec<u8>) {} fn dec(_: &mut &[u8]) -> D<()> { Ok(()) } }
impl Ref for String {
    fn gen(r: &mut R, d: usize) -> String { let n = r.len(d); (0..n).map(|_| ['a', 'Z', '0', '\0', 'é', 'あ', '😀', ' '][r.below(8)]).collect() }
    fn enc(&self, o: &mut Vec<u8>) { put_var(o, self.as_bytes()) }
    fn dec(i: &mut &[u8]) -> D<String> { let n = word(i)? as usize; let b = take(i, n)?.to_vec(); let s = String::from_utf8(b).map_err(|_| E::Bad)?; take(i, padn(n))?; Ok(s) }
}
impl<T: Ref> Ref for Vec<T> {
    fn gen(r: &mut R, d: usize) -> Self { let n = r.len(d); (0..n).map(|_| T::gen(r, d + 1)).collect() }
    fn enc(&self, o: &mut Vec<u8>) { put(o, self.len() as u32); for x in self { x.enc(o) } }
    fn dec(i: &mut &[u8]) -> D<Self> { let n = word(i)?; let mut v = vec![]; for _ in 0..n { v.push(T::dec(i)?) } Ok(v) }
}
impl<T: Ref> Ref for Option<T> {
    fn gen(r: &mut R, d: usize) -> Self { if r.below(if d > 4 { 4 } else { 2 }) == 1 { Some(T::gen(r, d + 1)) } else { None } }
    fn enc(&self, o: &mut Vec<u8>) { match self { None => put(o, 0), Some(x) => { put(o, 1); x.enc(o) } } }
    fn dec(i: &mut &[u8]) -> D<Self> { match word(i)? { 0 => Ok(None), 1 => Ok(Some(T::dec(i)?)), _ => Err(E::Unspec) } }
}
impl<T: Ref> Ref for Box<T> { fn gen(r: &mut R, d: usize) -> Self { Box::new(T::gen(r, d + 1)) } fn enc(&self, o: &mut Vec<u8>) { (**self).enc(o) } fn dec(i: &mut &[u8]) -> D<Self> { Ok(Box::new(T::dec(i)?)) } }
impl<T: Ref, const N: usize> Ref for [T; N] {
    fn gen(r: &mut R, d: usize) -> Self { std::array::from_fn(|_| T::gen(r, d + 1)) }
    fn enc(&self, o: &mut Vec<u8>) { for x in self { x.enc(o) } }
    fn dec(i: &mut &[u8]) -> D<Self> { let mut v = vec![]; for _ in 0..N { v.push(T::dec(i)?) } v.try_into().map_err(|_| E::Bad) }
}
macro_rules! tup { ($($a:ident $b:tt),*) => { impl<$($a: Ref),*> Ref for ($($a,)*) {
    fn gen(r: &mut R, d: usize) -> Self { ($($a::gen(r, d + 1),)*) }
    fn enc(&self, o: &mut Vec<u8>) { $(self.$b.enc(o);)* }
    fn dec(i: &mut &[u8]) -> D<Self> { Ok(($($a::dec(i)?,)*)) }
} } }
tup!(A 0, B 1); tup!(A 0, B 1, C 2);
impl Ref for serde_xdr::opaque::VariableArray {
    fn gen(r: &mut R, d: usize) -> Self { serde_xdr::opaque::VariableArray { data: gen_bytes(r, d) } }
    fn enc(&self, o: &mut Vec<u8>) { put_var(o, &self.data) }
    fn dec(i: &mut &[u8]) -> D<Self> { Ok(serde_xdr::opaque::VariableArray { data: get_var(i)? }) }
}

pub struct Ctx { pub r: R, pub out: String, pub prop: String, pub n: u64, pub rounds: usize, pub seen: HashSet<String>, pub samples: Vec<String> }
fn hex(b: &[u8]) -> String { let s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect(); if b.len() > 400 { format!("{s}... ({} bytes)", b.len()) } else { s } }
fn show<T: std::fmt::Debug>(x: &T) -> String { let s = format!("{x:?}"); if s.len() > 900 { s.chars().take(900).collect::<String>() + "..." } else { s } }
fn q(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\0', " ").chars().map(|c| if (c as u32) < 32 { ' ' } else { c }).collect::<String>()) }
// equal encodings (floats by their bits) and equal shape (two variants can share an encoding)
fn same<T: Ref + std::fmt::Debug>(a: &T, b: &T) -> bool { let (mut x, mut y) = (vec![], vec![]); a.enc(&mut x); b.enc(&mut y); x == y && format!("{a:?}") == format!("{b:?}") }
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
impl Ctx {
    pub fn fail(&self, what: &str, expected: &str, got: &str) -> ! {
        std::fs::write(&self.out, format!("{{\"failed\": true, \"property\": {}, \"case\": {}, \"expected\": {}, \"observed\": {}, \"evaluations\": {}}}\n", q(&self.prop), q(what), q(expected), q(got), self.n)).unwrap();
        println!("FAIL {what}\n expected {expected}\n observed {got}");
        std::process::exit(1)
    }
    pub fn case(&mut self, s: &str) {
        self.n += 1;
        if self.seen.len() < 2_000_000 && self.seen.insert(s.to_string()) && (self.samples.len() < 3 || (self.samples.len() < 12 && self.n % 97 == 0)) { self.samples.push(s.to_string()) }
        *LAST.lock().unwrap() = s.to_string();
    }
    pub fn enc<T: Ref + serde::Serialize + std::fmt::Debug>(&mut self, name: &str, v: &T) -> Vec<u8> {
        let mut e = vec![];
        v.enc(&mut e);
        let what = format!("to_bytes::<{name}>({})", show(v));
        self.case(&what);
        match catch_unwind(AssertUnwindSafe(|| serde_xdr::to_bytes(v))) {
            Err(_) => self.fail(&what, &hex(&e), "a panic"),
            Ok(Err(k)) => self.fail(&what, &hex(&e), &format!("error {k:?}")),
            Ok(Ok(b)) if b != e => self.fail(&what, &hex(&e), &hex(&b)),
            _ => e,
        }
    }
    pub fn dec<T: Ref + serde::de::DeserializeOwned + std::fmt::Debug>(&mut self, name: &str, b: &[u8]) {
        let mut i = b;
        let want = T::dec(&mut i);
        let what = format!("from_bytes::<{name}>({})", hex(b));
        self.case(&what);
        let got = match catch_unwind(AssertUnwindSafe(|| serde_xdr::from_bytes::<T>(b))) { Ok(x) => x, Err(_) => self.fail(&what, "a value or an error", "a panic") };
        match (&want, &got) {
            (Ok(w), Ok(g)) => if !i.is_empty() { self.fail(&what, &format!("an error: {} bytes left over", i.len()), &show(g)) } else if !same(w, g) { self.fail(&what, &show(w), &show(g)) },
            (Ok(w), Err(k)) => if i.is_empty() { self.fail(&what, &show(w), &format!("error {k:?}")) },
            (Err(E::Bad), Ok(g)) => self.fail(&what, "an error", &show(g)),
            _ => {}
        }
    }
    pub fn test<T: Ref + serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug>(&mut self, name: &str) {
        for k in 0..self.rounds {
            let v = T::gen(&mut self.r, 0);
            let e = self.enc(name, &v);
            if e.len() > 1 << 16 { continue }
            self.dec::<T>(name, &e);
            if k % 4 == 0 {
                let mut t = e.clone(); let n = 1 + self.r.below(9); for _ in 0..n { t.push([0, 1, 255][n % 3]) }
                self.dec::<T>(name, &t);
            }
            let n = if e.len() < 40 && k < 8 { e.len() } else { 1 };
            for j in 0..n { let c = if n == 1 { self.r.below(e.len().max(1)) } else { j }; if c < e.len() { self.dec::<T>(name, &e[..c]) } }
            if !e.is_empty() {
                let mut m = e.clone();
                for _ in 0..1 + self.r.below(2) {
                    let p = self.r.below(m.len());
                    match self.r.below(4) { 0 => m[p] = self.r.n() as u8, 1 => m[p] ^= 1 << self.r.below(8), 2 => { let w = self.r.bits() as u32; let a = p & !3; if a + 4 <= m.len() { m[a..a + 4].copy_from_slice(&w.to_be_bytes()) } }, _ => if m.len() >= 4 { let w = self.r.bits() as u32; m[..4].copy_from_slice(&w.to_be_bytes()) } }
                }
                // an announced length the input does not back is refused by the reference too; skip the slow ones
                self.dec::<T>(name, &m);
            }
        }
        for w in [0u32, 1, 2, 3, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 10, 100] {
            for pad in [0usize, 4, 8, 40] { let mut b = w.to_be_bytes().to_vec(); b.extend(vec![0u8; pad]); self.dec::<T>(name, &b); }
        }
    }
    /// encodings of values of the definition, and bytes that are the encoding of none
    pub fn wire<T: serde::Serialize + serde::de::DeserializeOwned + std::fmt::Debug>(&mut self, name: &str, w: &[(&str, bool, Vec<u8>)]) {
        for (n, ok, b) in w {
            if *n != name { continue }
            let what = format!("from_bytes::<{name}>({})", hex(b));
            self.case(&what);
            let v = match catch_unwind(AssertUnwindSafe(|| serde_xdr::from_bytes::<T>(b))) {
                Err(_) => self.fail(&what, "a value or an error", "a panic"),
                Ok(Err(k)) if *ok => self.fail(&what, "a value: the bytes are the encoding of one by the definition", &format!("error {k:?}")),
                Ok(Err(_)) => continue,
                Ok(Ok(v)) => v,
            };
            let again = match catch_unwind(AssertUnwindSafe(|| serde_xdr::to_bytes(&v))) {
                Err(_) => self.fail(&what, "a value that can be encoded", &format!("a panic encoding {}", show(&v))),
                Ok(r) => r.ok(),
            };
            if *ok && again.as_ref() != Some(b) { self.fail(&what, "a value encoded as the same bytes", &format!("{} encoded as {}", show(&v), again.map_or("an error".to_string(), |a| hex(&a)))) }
            if !*ok && again.as_ref() == Some(b) { self.fail(&what, "an error: no value of the definition is encoded like that", &format!("{} encoded as these bytes", show(&v))) }
        }
    }
}
pub fn drive(run: impl FnOnce(&mut Ctx)) {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut c = Ctx { r: R(seed.wrapping_mul(0x1234567) ^ a[1].bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64))), out: a[4].clone(), prop: a[1].clone(), n: 0, rounds: a[3].parse().unwrap(), seen: HashSet::new(), samples: vec![] };
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut c)));
    if r.is_err() { let l = LAST.lock().unwrap().clone(); c.fail(&l, "no panic of the replay", "a panic of the replay itself"); }
    let s: Vec<String> = c.samples.iter().map(|s| q(&s.chars().take(300).collect::<String>())).collect();
    std::fs::write(&c.out, format!("{{\"failed\": false, \"property\": {}, \"evaluations\": {}, \"distinct\": {}, \"samples\": [{}]}}\n", q(&c.prop), c.n, c.seen.len(), s.join(", "))).unwrap();
}
