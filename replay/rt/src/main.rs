//! Replays the runtime properties C01..C14 on the real crate: directed and random inputs against the
//! reference codec in val.rs. usage: vx_rt PROP SEED ROUNDS OUT [literals...]
mod val;
use serde_xdr::error::Error;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use val::*;

struct Count;
static ON: AtomicBool = AtomicBool::new(false);
static MAXREQ: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); System.realloc(p, l, n) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
}
fn note(n: usize) { if ON.load(SeqCst) { MAXREQ.fetch_max(n, SeqCst); } }
#[global_allocator]
static A: Count = Count;

static CASE: Mutex<(u64, String)> = Mutex::new((0, String::new()));

pub struct R(u64);
impl R {
    fn n(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    fn below(&mut self, k: usize) -> usize { if k == 0 { 0 } else { (self.n() % k as u64) as usize } }
    fn one<T: Clone>(&mut self, x: &[T]) -> T { x[self.below(x.len())].clone() }
}
struct Ctx { r: R, lits: Vec<u64>, out: String, prop: String, n: u64, seen: HashSet<u64>, samples: Vec<String> }

fn show<T: std::fmt::Debug>(x: &T) -> String { let s = format!("{x:?}"); if s.len() > 900 { format!("{}... ({} characters)", s.chars().take(900).collect::<String>(), s.len()) } else { s } }
fn hex(b: &[u8]) -> String { let s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect(); if b.len() > 400 { format!("{s}... ({} bytes)", b.len()) } else { s } }
fn q(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")) }

impl Ctx {
    fn fail(&self, what: &str, expected: &str, got: &str) -> ! {
        let t = format!("{{\"failed\": true, \"property\": {}, \"case\": {}, \"expected\": {}, \"observed\": {}, \"evaluations\": {}}}\n", q(&self.prop), q(what), q(expected), q(got), self.n);
        std::fs::write(&self.out, t).unwrap();
        println!("FAIL {what}\n expected {expected}\n observed {got}");
        std::process::exit(1)
    }
    fn case(&mut self, s: String) {
        self.n += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        if self.seen.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 12 && self.n % 97 == 0)) { self.samples.push(s.clone()) }
        *CASE.lock().unwrap() = (self.n, s);
    }
    // ------------------------------------------------------------ encoding
    fn enc(&mut self, v: &Val) -> Option<Vec<u8>> {
        let mut b = vec![];
        let e = if enc(v, &mut b) { Some(b) } else { None };
        let what = format!("to_bytes({})", show(v));
        self.case(what.clone());
        let r = catch_unwind(AssertUnwindSafe(|| serde_xdr::to_bytes(v)));
        match (r, &e) {
            (Err(_), _) => self.fail(&what, &e.as_ref().map_or("an error".into(), |b| hex(b)), "a panic"),
            (Ok(Ok(b)), Some(x)) if b == *x => {}
            (Ok(Ok(b)), x) => self.fail(&what, &x.as_ref().map_or("an error".into(), |b| hex(b)), &hex(&b)),
            (Ok(Err(k)), Some(x)) => self.fail(&what, &hex(x), &format!("error {k:?}")),
            (Ok(Err(_)), None) => {}
        }
        e
    }
    // ------------------------------------------------------------ decoding
    fn dec(&mut self, t: &Ty, b: &[u8], mode: Mode) {
        let mut i = b;
        let want = dec(t, &mut i);
        let rest = i.len();
        let what = format!("from_bytes::<{}>({})", show(t), hex(b));
        self.case(what.clone());
        TY.with(|x| *x.borrow_mut() = t.clone());
        HINT.with(|h| h.set(None));
        OVERREAD.with(|h| h.set(false));
        MAXREQ.store(0, SeqCst);
        ON.store(true, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| serde_xdr::from_bytes::<Dyn>(b).map(|d| d.0)));
        ON.store(false, SeqCst);
        let max = MAXREQ.load(SeqCst);
        let r = match r { Ok(r) => r, Err(_) => self.fail(&what, &show(&want), "a panic") };
        if mode.alloc && max > 64 * b.len() + (1 << 20) { self.fail(&what, "memory in proportion to the input", &format!("one allocation of {max} bytes for an input of {} bytes", b.len())) }
        if matches!(want, Err(DErr::Unspec)) { return }
        if mode.hints {
            if let Some((k, w)) = HINT.with(|h| h.get()) { self.fail(&what, &format!("{w} items still to come"), &format!("size_hint reports {k}")) }
            if OVERREAD.with(|h| h.get()) { self.fail(&what, "no item beyond the last", "one more item was offered") }
        }
        match (&want, rest) {
            (Ok(v), 0) => match &r { Ok(x) if x == v => {} x => self.fail(&what, &show(v), &show(x)) },
            (Ok(v), n) => match &r {
                Err(Error::TrailingData(k)) if *k == n || !mode.trailing => {}
                Err(_) if !mode.trailing => {}
                Ok(x) if !mode.trailing && x == v => {}
                x => self.fail(&what, &format!("the error TrailingData({n})"), &show(x)),
            },
            (Err(DErr::Missing(k)), _) => match &r { Err(Error::NotEnoughData(m)) if k.contains(m) => {} Err(Error::Custom(_)) if !mode.missing => {} Err(_) if !mode.missing => {} x => self.fail(&what, &format!("the error NotEnoughData({k:?})"), &show(x)) },
            (Err(_), _) => match &r { Err(_) => {} Ok(x) => self.fail(&what, "an error", &show(x)) },
        }
    }
    // ------------------------------------------------------------ generation
    fn lens(&self) -> Vec<usize> {
        let mut v: Vec<usize> = (0..=40).collect();
        v.extend([63, 64, 65, 66, 67, 127, 128, 129, 255, 256, 257, 258, 511, 513, 1000, 1023, 1025, 4095, 4096, 4097, 8191, 8193, 65535, 65536, 65537]);
        for &l in &self.lits { if l <= 1 << 20 { for d in [0i64, -1, 1, 2, 3] { let x = l as i64 + d; if x >= 0 { v.push(x as usize) } } } }
        v.sort(); v.dedup(); v
    }
    fn ints(&self) -> Vec<u64> {
        let mut v = vec![0u64, 1, 2, 3, u64::MAX, u64::MAX - 1];
        for k in 0..64 { for d in [0u64, 1, u64::MAX] { let x = (1u64 << k).wrapping_add(d); v.push(x); v.push(x.wrapping_neg()) } }
        for &l in &self.lits { for d in [0u64, 1, u64::MAX] { v.push(l.wrapping_add(d)); v.push(l.wrapping_neg().wrapping_add(d)) } }
        v.extend([0x0102030405060708, 0x7f80ff00deadbeef, 0xd800, 0xdfff, 0xe000, 0xd7ff, 0x10ffff, 0x110000, 0x7fc00000, 0x7ff0000000000000, 0x7ff8000000000001]);
        v.sort(); v.dedup(); v
    }
    fn scalar(&mut self, k: usize, x: u64) -> Val {
        match k % 12 { 0 => Val::Bool(x & 1 == 1), 1 => Val::I8(x as i8), 2 => Val::I16(x as i16), 3 => Val::I32(x as i32), 4 => Val::I64(x as i64), 5 => Val::U8(x as u8), 6 => Val::U16(x as u16), 7 => Val::U32(x as u32), 8 => Val::U64(x), 9 => Val::F32(x as u32), 10 => Val::F64(x),
            _ => Val::Char(char::from_u32(x as u32).unwrap_or_else(|| char::from_u32(x as u32 % 0xd800).unwrap())) }
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> { let k = self.r.below(4); (0..n).map(|i| match k { 0 => 0xff, 1 => 0, 2 => (i % 251 + 1) as u8, _ => self.r.n() as u8 }).collect() }
    fn string(&mut self, n: usize) -> String {
        let mut s = String::new(); let k = self.r.below(3);
        while s.len() < n {
            let room = n - s.len();
            let c = match k { 0 => 'a', 1 => self.r.one(&['z', '\0', '\u{7f}', 'é', '\u{7ff}', '\u{800}', '語', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}']), _ => char::from_u32(self.r.below(0x80) as u32).unwrap() };
            if c.len_utf8() <= room { s.push(c) } else { s.push('x') }
        }
        s
    }
    fn len(&mut self) -> usize { if self.r.below(8) == 0 { let l = self.lens(); let x = self.r.one(&l); x.min(300) } else { self.r.below(9) } }
    fn ty(&mut self, d: usize) -> Ty {
        let k = if d == 0 { self.r.below(19) } else { self.r.below(34) };
        let mut many = |c: &mut Ctx| -> Vec<Ty> { let n = if c.r.below(12) == 0 { 10 + c.r.below(30) } else { c.r.below(5) }; (0..n).map(|_| c.ty(d.saturating_sub(1))).collect() };
        match k {
            0 => Ty::Bool, 1 => Ty::I8, 2 => Ty::I16, 3 => Ty::I32, 4 => Ty::I64, 5 => Ty::U8, 6 => Ty::U16, 7 => Ty::U32, 8 => Ty::U64, 9 => Ty::F32, 10 => Ty::F64, 11 => Ty::Char,
            12 => Ty::Str(self.r.below(3) as u8), 13 => Ty::Bytes(self.r.below(2) as u8), 14 => Ty::Unit, 15 => Ty::UnitStruct, 16 => Ty::OpVar,
            17 => Ty::OpFix(self.r.one(&FIXES[..30])), 18 => Ty::S32,
            19 | 20 => Ty::Opt(Box::new(self.ty(d - 1))), 21 => Ty::Newtype(Box::new(self.ty(d - 1))), 22 | 23 | 24 => Ty::Seq(Box::new(self.ty(d - 1))),
            25 | 26 => Ty::Map(Box::new(self.ty(d - 1)), Box::new(self.ty(d - 1))),
            27 => Ty::Tuple(many(self)), 28 => Ty::TupleStruct(many(self)), 29 | 30 => Ty::Struct(many(self)),
            _ => {
                let n = 1 + self.r.below(5); let mut v: Vec<(u32, VTy)> = vec![];
                for j in 0..n {
                    let idx = match self.r.below(4) { 0 => self.r.below(300) as u32, 1 => self.r.one(&[i32::MAX as u32, 0x1000000, 0x10000, 255, 256]), _ => j as u32 };
                    if v.iter().any(|x| x.0 == idx) { continue }
                    let t = match self.r.below(4) { 0 => VTy::Unit, 1 => VTy::Newtype(self.ty(d - 1)), 2 => VTy::Tuple(many(self)), _ => VTy::Struct(many(self)) };
                    v.push((idx, t));
                }
                Ty::Enum(v)
            }
        }
    }
    fn val(&mut self, t: &Ty) -> Val {
        let ints = |c: &mut Ctx| -> u64 { if c.r.below(2) == 0 { c.r.n() } else { let v = c.ints(); c.r.one(&v) } };
        match t {
            Ty::Bool => { let x = ints(self); self.scalar(0, x) } Ty::I8 => { let x = ints(self); self.scalar(1, x) } Ty::I16 => { let x = ints(self); self.scalar(2, x) } Ty::I32 => { let x = ints(self); self.scalar(3, x) }
            Ty::I64 => { let x = ints(self); self.scalar(4, x) } Ty::U8 => { let x = ints(self); self.scalar(5, x) } Ty::U16 => { let x = ints(self); self.scalar(6, x) } Ty::U32 => { let x = ints(self); self.scalar(7, x) }
            Ty::U64 => { let x = ints(self); self.scalar(8, x) } Ty::F32 => { let x = ints(self); self.scalar(9, x) } Ty::F64 => { let x = ints(self); self.scalar(10, x) } Ty::Char => { let x = ints(self); self.scalar(11, x) }
            Ty::Str(_) => { let n = self.len(); Val::Str(self.string(n)) } Ty::Bytes(_) => { let n = self.len(); Val::Bytes(self.bytes(n)) }
            Ty::Unit => Val::Unit, Ty::UnitStruct => Val::UnitStruct,
            Ty::Opt(x) => if self.r.below(3) == 0 { Val::None } else { Val::Some(Box::new(self.val(x))) },
            Ty::Newtype(x) => Val::Newtype(Box::new(self.val(x))),
            Ty::Seq(x) => { let n = self.r.below(5); Val::Seq((0..n).map(|_| self.val(x)).collect()) }
            Ty::Map(k, v) => { let n = self.r.below(4); Val::Map((0..n).map(|_| (self.val(k), self.val(v))).collect()) }
            Ty::Tuple(x) => Val::Tuple(x.iter().map(|t| self.val(t)).collect()), Ty::TupleStruct(x) => Val::TupleStruct(x.iter().map(|t| self.val(t)).collect()), Ty::Struct(x) => Val::Struct(x.iter().map(|t| self.val(t)).collect()),
            Ty::Enum(vs) => { let (i, t) = self.r.one(vs); Val::Var(i, Box::new(match &t { VTy::Unit => VVal::Unit, VTy::Newtype(t) => VVal::Newtype(self.val(t)), VTy::Tuple(x) => VVal::Tuple(x.iter().map(|t| self.val(t)).collect()), VTy::Struct(x) => VVal::Struct(x.iter().map(|t| self.val(t)).collect()) })) }
            Ty::OpVar => { let n = self.len(); Val::OpVar(self.bytes(n)) } Ty::OpFix(n) => Val::OpFix(self.bytes(*n)), Ty::S32 => Val::S32(if self.r.below(2) == 0 { self.r.one(&S32_OK) } else { (self.r.n() as i32) & !0xff | 0x33 }),
            Ty::Any | Ty::Ignored => Val::Unit,
        }
    }
    fn plain(&self, v: &Val) -> Vec<u8> { let mut b = vec![]; assert!(enc(v, &mut b)); b }
    /// the type and value in some surroundings
    fn wrap(&mut self, t: Ty, v: Val) -> (Ty, Val) {
        let (a, b) = (self.ty(0), self.ty(0)); let (va, vb) = (self.val(&a), self.val(&b));
        match self.r.below(4) { 0 => (Ty::Struct(vec![a, t, b]), Val::Struct(vec![va, v, vb])), 1 => (Ty::Tuple(vec![a, t]), Val::Tuple(vec![va, v])), 2 => (Ty::Opt(Box::new(Ty::Tuple(vec![t, b]))), Val::Some(Box::new(Val::Tuple(vec![v, vb])))), _ => (Ty::Seq(Box::new(t)), Val::Seq(vec![v.clone(), v])) }
    }
    fn both(&mut self, t: Ty, v: Val, m: Mode) { let b = self.plain(&v); self.dec(&t, &b, m); let (t, v) = self.wrap(t, v); let b = self.plain(&v); self.dec(&t, &b, m) }
    /// every proper prefix, some extensions and mutations of an encoding
    fn hurt(&mut self, t: &Ty, b: &[u8], m: Mode) {
        let cuts: Vec<usize> = if b.len() <= 80 { (0..b.len()).collect() } else { let mut c: Vec<usize> = (0..24).map(|_| self.r.below(b.len())).collect(); c.extend(b.len() - 9..b.len()); c };
        for k in cuts { self.dec(t, &b[..k], m) }
        for _ in 0..6 {
            let mut x = b.to_vec(); if x.is_empty() { break }
            match self.r.below(3) { 0 => { let k = self.r.below(x.len()); x[k] = self.r.n() as u8 } 1 => { let k = self.r.below(x.len()) & !3; if k + 4 <= x.len() { let w = self.r.one(&[0u32, 1, 2, 5, 255, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc]).to_be_bytes(); x[k..k + 4].copy_from_slice(&w) } } _ => { let k = self.r.below(x.len()); x.truncate(k) } }
            if !heavy(t) || x.len() < 4 { self.dec(t, &x, m) }
        }
    }
}
/// types for which an announced count can ask for billions of empty items
fn heavy(t: &Ty) -> bool {
    match t {
        Ty::Seq(x) => min_size(x) == 0 || heavy(x), Ty::Map(k, v) => min_size(k) + min_size(v) == 0 || heavy(k) || heavy(v),
        Ty::Opt(x) | Ty::Newtype(x) => heavy(x), Ty::Tuple(x) | Ty::TupleStruct(x) | Ty::Struct(x) => x.iter().any(heavy),
        Ty::Enum(v) => v.iter().any(|(_, t)| match t { VTy::Unit => false, VTy::Newtype(t) => heavy(t), VTy::Tuple(x) | VTy::Struct(x) => x.iter().any(heavy) }),
        _ => false,
    }
}
#[derive(Clone, Copy)]
struct Mode { trailing: bool, missing: bool, alloc: bool, hints: bool }
const M: Mode = Mode { trailing: false, missing: false, alloc: false, hints: false };
const TAGS: usize = 12;

fn scal_ty(k: usize) -> Ty { [Ty::Bool, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::F32, Ty::F64, Ty::Char][k].clone() }

fn run(c: &mut Ctx, rounds: usize) {
    let prop = c.prop.clone();
    match prop.as_str() {
        "C01" => {
            let ints = c.ints();
            for k in 0..TAGS { for &x in &ints { let v = c.scalar(k, x); c.enc(&v); } }
            for b in 0..=255u64 { for k in [1, 5, 2, 6, 11] { let v = c.scalar(k, b); c.enc(&v); } }
            for x in 0..=0x1100u64 { let v = c.scalar(11, x * 0x100 + x % 0x100); c.enc(&v); let v = c.scalar(6, x * 15); c.enc(&v); let v = c.scalar(2, x * 15); c.enc(&v); }
            for _ in 0..rounds * 20 { let n = c.r.below(9); let v: Vec<Val> = (0..n).map(|_| { let (k, x) = (c.r.below(12), c.r.n() >> c.r.below(64)); c.scalar(k, x) }).collect(); c.enc(&Val::Tuple(v.clone())); if n > 0 { c.enc(&v[0]); } }
        }
        "C02" => {
            for n in c.lens() { let s = c.string(n); c.enc(&Val::Str(s)); let b = c.bytes(n); c.enc(&Val::Bytes(b.clone())); let s = c.string(n); c.enc(&Val::Tuple(vec![Val::U8(7), Val::Bytes(b), Val::Str(s), Val::U32(0x01020304)])); }
            for _ in 0..rounds * 4 { let n = c.r.below(70); let m = c.r.below(200); let (s, b) = (c.string(n), c.bytes(m)); c.enc(&Val::Str(s)); c.enc(&Val::Bytes(b)); }
            for n in [1usize << 32, (1 << 32) + 1, (1 << 32) + 7, (1 << 33) + 4] { c.enc_huge(n) }
        }
        "C03" => {
            for n in c.lens() { let n = n.min(3000); c.enc(&Val::Seq((0..n).map(|i| Val::U32(i as u32)).collect())); c.enc(&Val::Map((0..n).map(|i| (Val::U32(i as u32), Val::Str("k".repeat(i % 5)))).collect())); c.enc(&Val::SeqNoLen((0..n % 9).map(|i| Val::U32(i as u32)).collect())); c.enc(&Val::MapNoLen((0..n % 9).map(|i| (Val::U32(i as u32), Val::U8(1))).collect())); }
            for k in c.ints() { c.enc(&Val::SeqClaim(k as usize)); c.enc(&Val::MapClaim(k as usize)); }
            for _ in 0..rounds * 4 { let t = c.ty(2); for t in [Ty::Seq(Box::new(t.clone())), Ty::Map(Box::new(Ty::I16), Box::new(t))] { let v = c.val(&t); c.enc(&v); c.enc(&Val::Struct(vec![Val::U8(1), v.clone(), v])); } }
        }
        "C04" => {
            for _ in 0..rounds * 6 {
                let n = if c.r.below(9) == 0 { c.r.below(60) } else { c.r.below(6) };
                let v: Vec<Val> = (0..n).map(|_| { let t = c.ty(2); c.val(&t) }).collect();
                for x in [Val::Tuple(v.clone()), Val::TupleStruct(v.clone()), Val::Struct(v.clone()), Val::Newtype(Box::new(Val::Tuple(v.clone()))), Val::Unit, Val::UnitStruct] { c.enc(&x); }
                let bad = match c.r.below(4) { 0 => Val::Fail, 1 => Val::SeqNoLen(vec![Val::U8(1)]), 2 => Val::Var(0x8000_0000 + c.r.below(9) as u32, Box::new(VVal::Unit)), _ => Val::Seq(vec![Val::Fail]) };
                let p = c.r.below(n + 1); let mut w = v.clone(); w.insert(p, bad);
                for x in [Val::Tuple(w.clone()), Val::TupleStruct(w.clone()), Val::Struct(w.clone()), Val::Newtype(Box::new(Val::Struct(w.clone()))), Val::Seq(w.clone()), Val::Some(Box::new(Val::Tuple(w.clone()))), Val::Map(w.iter().map(|x| (Val::U8(1), x.clone())).collect()), Val::Map(w.iter().map(|x| (x.clone(), Val::U8(1))).collect()), Val::Var(1, Box::new(VVal::Tuple(w.clone()))), Val::Var(1, Box::new(VVal::Struct(w.clone()))), Val::Var(1, Box::new(VVal::Newtype(Val::Tuple(w.clone()))))] { c.enc(&x); }
            }
            for n in c.lens() { if n <= 5000 { c.enc(&Val::Tuple((0..n).map(|i| Val::U8(i as u8)).collect())); c.enc(&Val::Struct((0..n).map(|i| Val::I16(i as i16)).collect())); } }
        }
        "C05" => {
            for i in c.ints() {
                if i > u32::MAX as u64 { continue }
                for v in [VVal::Unit, VVal::Newtype(Val::U8(3)), VVal::Tuple(vec![Val::U8(1), Val::Str("abc".into())]), VVal::Tuple(vec![]), VVal::Struct(vec![Val::I64(-1), Val::None])] { let x = Val::Var(i as u32, Box::new(v)); c.enc(&x); c.enc(&Val::Tuple(vec![Val::U8(9), x, Val::U8(8)])); }
            }
            for _ in 0..rounds * 5 {
                let t = c.ty(2); let v = c.val(&t); c.enc(&Val::None); c.enc(&Val::Some(Box::new(v.clone()))); c.enc(&Val::Some(Box::new(Val::Some(Box::new(v)))));
                let n = c.r.below(12); let f: Vec<Val> = (0..n).map(|_| { let t = c.ty(1); c.val(&t) }).collect(); let i = c.r.below(40) as u32;
                c.enc(&Val::Var(i, Box::new(VVal::Tuple(f.clone())))); c.enc(&Val::Var(i, Box::new(VVal::Struct(f.clone())))); c.enc(&Val::Var(i, Box::new(VVal::Newtype(Val::Tuple(f)))));
            }
        }
        "C06" => {
            let ints = c.ints();
            for k in 0..TAGS { let t = scal_ty(k); for &x in &ints {
                for w in [&(x as u32).to_be_bytes()[..], &x.to_be_bytes()[..], &(x as u32 as u64).to_be_bytes()[..]] { c.dec(&t, w, M); c.dec(&Ty::Tuple(vec![t.clone(), Ty::U32]), w, M); c.dec(&Ty::Tuple(vec![Ty::U32, t.clone()]), &[&[0, 0, 0, 5][..], w].concat(), M); }
                let v = c.scalar(k, x); c.both(t.clone(), v, M);
            } }
            for x in (0..0x120000u32).step_by(97) { c.dec(&Ty::Char, &x.to_be_bytes(), M) }
            for x in -70000i32..70000 { if x % 7 == 0 || x.abs() < 400 || (x.abs() - 32768).abs() < 300 || (x.abs() - 65536).abs() < 300 { for t in [Ty::I8, Ty::U8, Ty::I16, Ty::U16] { c.dec(&t, &x.to_be_bytes(), M) } } }
            for _ in 0..rounds * 20 { let k = c.r.below(12); let x = c.r.n() >> c.r.below(64); c.dec(&scal_ty(k), &(x as u32).to_be_bytes(), M); c.dec(&scal_ty(k), &x.to_be_bytes(), M); let v = c.scalar(k, x); c.both(scal_ty(k), v, M); }
        }
        "C07" => {
            for n in c.lens() {
                for k in 0..3 { let s = c.string(n); c.both(Ty::Str(k), Val::Str(s), M); }
                for k in 0..2 { let b = c.bytes(n); c.both(Ty::Bytes(k), Val::Bytes(b), M); }
                let s = c.string(n); let b = c.plain(&Val::Str(s));
                for t in [Ty::Str(0), Ty::Str(1), Ty::Str(2), Ty::Bytes(0), Ty::Bytes(1)] { if n < 300 { c.hurt(&t, &b, M); } c.dec(&Ty::Tuple(vec![t.clone(), Ty::U8]), &b, M);
                    for p in [1u8, 255] { let mut x = b.clone(); let l = x.len(); for j in n + 4..l { x[j] = p } c.dec(&t, &x, M); c.dec(&Ty::Tuple(vec![t.clone(), Ty::U8]), &[&x[..], &[0, 0, 0, 9]].concat(), M) } }
            }
            for _ in 0..rounds * 10 { let n = c.r.below(14); let s = c.string(n); let mut b = c.plain(&Val::Str(s)); if n > 0 { let k = 4 + c.r.below(n); b[k] = c.r.one(&[0xff, 0x80, 0xc0, 0xe0, 0xed, 0xf0, 0xf4, 0xf8, 0xbf, 0xc3]) } for k in 0..3 { c.dec(&Ty::Str(k), &b, M); } c.dec(&Ty::Tuple(vec![Ty::Str(1), Ty::U8]), &[&b[..], &[0, 0, 0, 1]].concat(), M); }
        }
        "C08" => {
            let m = Mode { hints: true, ..M };
            for n in c.lens() { let n = n.min(2500); let v = Val::Seq((0..n).map(|i| Val::U16(i as u16)).collect()); c.both(Ty::Seq(Box::new(Ty::U16)), v.clone(), m); let v2 = Val::Map((0..n).map(|i| (Val::U16(i as u16), Val::I64(-(i as i64)))).collect()); c.both(Ty::Map(Box::new(Ty::U16), Box::new(Ty::I64)), v2.clone(), m); if n < 40 { let b = c.plain(&v); c.hurt(&Ty::Seq(Box::new(Ty::U16)), &b, m); let b = c.plain(&v2); c.hurt(&Ty::Map(Box::new(Ty::U16), Box::new(Ty::I64)), &b, m); } }
            for _ in 0..rounds * 8 { let t = c.ty(2); let k = c.ty(0); for t in [Ty::Seq(Box::new(t.clone())), Ty::Map(Box::new(k), Box::new(t))] { let v = c.val(&t); let b = c.plain(&v); c.both(t.clone(), v, m); if b.len() < 200 { c.hurt(&t, &b, m) } } }
        }
        "C09" => {
            for _ in 0..rounds * 10 {
                let mut t = c.ty(3);
                while !matches!(t, Ty::Opt(_) | Ty::Newtype(_) | Ty::Tuple(_) | Ty::TupleStruct(_) | Ty::Struct(_) | Ty::Enum(_) | Ty::Unit | Ty::UnitStruct) { t = c.ty(3) }
                let v = c.val(&t); let b = c.plain(&v); c.both(t.clone(), v, M); if b.len() < 120 { c.hurt(&t, &b, M) }
            }
            let e = Ty::Enum(vec![(0, VTy::Unit), (1, VTy::Newtype(Ty::U8)), (2, VTy::Tuple(vec![Ty::U8, Ty::Str(1)])), (3, VTy::Struct(vec![Ty::I64])), (255, VTy::Unit), (0x100, VTy::Tuple(vec![])), (i32::MAX as u32, VTy::Unit)]);
            for i in c.ints() { let b = [&(i as u32).to_be_bytes()[..], &[0, 0, 0, 1]].concat(); c.dec(&e, &b[..4], M); c.dec(&e, &b, M); }
            for i in 0..600u32 { c.dec(&e, &i.to_be_bytes(), M) }
        }
        "C10" => {
            let m = Mode { missing: true, alloc: true, ..M };
            let big = [0u32, 1, 3, 4, 5, 100, 0x10000, 0x100000, 0x1000001, 0x7fffffff, 0x80000000, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff];
            let mut ts: Vec<Ty> = (0..TAGS).map(scal_ty).collect();
            ts.extend([Ty::Str(0), Ty::Str(1), Ty::Str(2), Ty::Bytes(0), Ty::Bytes(1), Ty::OpVar, Ty::S32, Ty::Any, Ty::Ignored, Ty::Opt(Box::new(Ty::Str(1))), Ty::Seq(Box::new(Ty::U8)), Ty::Seq(Box::new(Ty::OpVar)), Ty::Map(Box::new(Ty::U8), Box::new(Ty::Bytes(1))), Ty::Enum(vec![(0, VTy::Unit), (5, VTy::Tuple(vec![Ty::U64, Ty::OpVar]))])]);
            ts.extend(FIXES[..40].iter().map(|n| Ty::OpFix(*n)));
            let mut lits: Vec<u32> = c.lits.iter().filter(|x| **x <= u32::MAX as u64).map(|x| *x as u32).collect(); lits.extend(big);
            for t in &ts { for &w in &lits { for tail in 0..14 { let x = c.bytes(tail); let b = [&w.to_be_bytes()[..], &x].concat(); c.dec(t, &b, m) } } for n in 0..12 { for f in [0u8, 1, 0xff, 0x80] { c.dec(t, &vec![f; n], m) } } }
            for _ in 0..rounds * 10 { let t = c.ty(2); if heavy(&t) { continue } let n = c.r.below(60); let k = c.r.below(4); let b: Vec<u8> = (0..n).map(|i| match k { 0 => c.r.n() as u8, 1 => if i % 4 == 3 { c.r.below(4) as u8 } else { 0 }, 2 => c.r.one(&[0, 0, 0, 1, 255]), _ => 0 }).collect(); c.dec(&t, &b, m); let v = c.val(&t); let b = c.plain(&v); c.hurt(&t, &b, m) }
        }
        "C11" => {
            let m = Mode { trailing: true, ..M };
            for _ in 0..rounds * 6 { let t = c.ty(2); let v = c.val(&t); let b = c.plain(&v); c.dec(&t, &b, m); for k in [1, 2, 3, 4, 5, 8, 12, 255, 256, 1000] { let k = if k > 12 { k + c.r.below(3) } else { k }; let x = c.bytes(k); c.dec(&t, &[&b[..], &x].concat(), m); c.dec(&t, &[&b[..], &vec![0; k][..]].concat(), m); } }
            for n in c.lens() { c.dec(&Ty::Unit, &vec![0; n], m); c.dec(&Ty::U32, &vec![0; n], m); c.dec(&Ty::Tuple(vec![]), &vec![1; n], m); c.dec(&Ty::Seq(Box::new(Ty::U8)), &vec![0; n], m); }
        }
        "C12" => {
            for _ in 0..rounds * 12 { let t = c.ty(3); let v = c.val(&t); if let Some(b) = c.real(&v) { c.back(&t, &v, &b) } let (t, v) = c.wrap(t, v); if let Some(b) = c.real(&v) { c.back(&t, &v, &b) } }
            let ints = c.ints();
            for k in 0..TAGS { for &x in &ints { let v = c.scalar(k, x); if let Some(b) = c.real(&v) { c.back(&scal_ty(k), &v, &b) } } }
            for n in c.lens() { let s = Val::Str(c.string(n)); let b = Val::Bytes(c.bytes(n)); let o = Val::OpVar(c.bytes(n)); for (t, v) in [(Ty::Str(1), s), (Ty::Bytes(1), b), (Ty::OpVar, o)] { if let Some(b) = c.real(&v) { c.back(&t, &v, &b) } } }
            for i in ints { if i <= i32::MAX as u64 { let v = Val::Var(i as u32, Box::new(VVal::Tuple(vec![Val::U8(1)]))); if let Some(b) = c.real(&v) { c.back(&Ty::Enum(vec![(i as u32, VTy::Tuple(vec![Ty::U8]))]), &v, &b) } } }
        }
        "C13" => {
            for n in c.lens() { let b = c.bytes(n); let v = Val::OpVar(b); c.enc(&v); c.both(Ty::OpVar, v.clone(), M); let e = c.plain(&v); if n < 300 { c.hurt(&Ty::OpVar, &e, M) } let w = Val::Tuple(vec![Val::U8(1), v, Val::U8(2)]); c.enc(&w); }
            for &n in FIXES { for _ in 0..3 { let v = Val::OpFix(c.bytes(n)); c.enc(&v); c.both(Ty::OpFix(n), v.clone(), M); let e = c.plain(&v); if n < 300 { c.hurt(&Ty::OpFix(n), &e, M) } let w = Val::Tuple(vec![Val::U8(1), v, Val::U8(2)]); c.enc(&w); } }
            for n in c.lens() { if n < 70000 { let v = Val::OpFix(c.bytes(n)); c.enc(&v); } }
            for _ in 0..rounds { let n = c.r.below(200); let v = Val::OpVar(c.bytes(n)); c.enc(&v); c.both(Ty::OpVar, v, M); }
        }
        "C14" => {
            for x in c.ints() { let x = x as i32; c.enc(&Val::S32(x)); c.enc(&Val::Tuple(vec![Val::U8(1), Val::S32(x), Val::U8(2)])); for y in [x, x & !0xff | 0x33] { c.dec(&Ty::S32, &y.to_be_bytes(), M); c.dec(&Ty::Tuple(vec![Ty::S32, Ty::U32]), &[y.to_be_bytes(), [0, 0, 0, 7]].concat(), M); } }
            for _ in 0..rounds * 10 { let x = c.r.n() as i32 >> c.r.below(32); c.enc(&Val::S32(x)); c.dec(&Ty::S32, &x.to_be_bytes(), M); }
        }
        p => panic!("unknown property {p}"),
    }
}
impl Ctx {
    fn enc_huge(&mut self, n: usize) {
        self.case(format!("byte string of {n} bytes"));
        let z = vec![0u8; n];
        struct B<'a>(&'a [u8], bool);
        impl serde::Serialize for B<'_> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { if self.1 { s.serialize_str(unsafe { std::str::from_utf8_unchecked(self.0) }) } else { s.serialize_bytes(self.0) } } }
        for st in [false, true] {
            match catch_unwind(AssertUnwindSafe(|| serde_xdr::to_bytes(&B(&z, st)).map(|b| b.len()))) {
                Ok(Err(_)) => {}
                Ok(Ok(k)) => self.fail(&format!("to_bytes of a {} of {n} zero bytes", if st { "string" } else { "byte string" }), "an error", &format!("{k} bytes")),
                Err(_) => self.fail(&format!("to_bytes of a {} of {n} zero bytes", if st { "string" } else { "byte string" }), "an error", "a panic"),
            }
        }
    }
    fn real(&mut self, v: &Val) -> Option<Vec<u8>> {
        let what = format!("to_bytes({})", show(v));
        self.case(what.clone());
        match catch_unwind(AssertUnwindSafe(|| serde_xdr::to_bytes(v))) { Ok(r) => r.ok(), Err(_) => self.fail(&what, "bytes or an error", "a panic") }
    }
    fn back(&mut self, t: &Ty, v: &Val, b: &[u8]) {
        TY.with(|x| *x.borrow_mut() = t.clone());
        let what = format!("from_bytes(to_bytes({})) with encoding {}", show(v), hex(b));
        match catch_unwind(AssertUnwindSafe(|| serde_xdr::from_bytes::<Dyn>(b).map(|d| d.0))) { Ok(Ok(x)) if x == *v => {} Ok(x) => self.fail(&what, &show(v), &show(&x)), Err(_) => self.fail(&what, &show(v), "a panic") }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let lits: Vec<u64> = a[5..].iter().filter_map(|x| x.parse().ok()).collect();
    let mut c = Ctx { r: R(a[2].parse().unwrap()), lits, out: a[4].clone(), prop: a[1].clone(), n: 0, seen: HashSet::new(), samples: vec![] };
    let (out, prop) = (a[4].clone(), a[1].clone());
    // an input on which the code does not come back is a finding too
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            let (n, s) = CASE.lock().unwrap().clone();
            if n == last.0 { last.1 += 5 } else { last = (n, 0) }
            if last.1 >= 90 {
                std::fs::write(&out, format!("{{\"failed\": true, \"property\": {}, \"case\": {}, \"expected\": \"a result\", \"observed\": \"no answer within 90 s\", \"evaluations\": {n}}}\n", q(&prop), q(&s))).unwrap();
                println!("FAIL {s}: no answer within 90 s");
                std::process::exit(1)
            }
        }
    });
    let rounds: usize = a[3].parse().unwrap();
    let th = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { run(&mut c, rounds); c }).unwrap();
    let c = th.join().expect("the replay itself failed");
    let s: Vec<String> = c.samples.iter().map(|x| q(&x.chars().take(300).collect::<String>())).collect();
    std::fs::write(&c.out, format!("{{\"failed\": false, \"property\": {}, \"evaluations\": {}, \"distinct\": {}, \"samples\": [{}]}}\n", q(&c.prop), c.n, c.seen.len(), s.join(", "))).unwrap();
    println!("ok {} cases, {} distinct", c.n, c.seen.len());
}
