use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
use std::time::{Duration, Instant};
/// the case that runs now, for the watch and for what is left after a crash
static NOW: Mutex<Option<(Instant, String)>> = Mutex::new(None);
pub const LIMIT: u64 = 40;
pub struct R(pub u64);
impl R {
    pub fn n(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn below(&mut self, k: usize) -> usize { if k == 0 { 0 } else { (self.n() % k as u64) as usize } }
    pub fn one<T: Clone>(&mut self, x: &[T]) -> T { x[self.below(x.len())].clone() }
}
pub struct Ctx { pub r: R, pub rounds: usize, pub lits: Vec<u64>, out: String, pub prop: String, pub n: u64, seen: HashSet<u64>, samples: Vec<String> }
fn q(s: &str) -> String {
    let mut t = String::from("\"");
    for c in s.chars() { match c { '"' => t.push_str("\\\""), '\\' => t.push_str("\\\\"), c if (c as u32) < 32 => t.push_str(&format!("\\u{:04x}", c as u32)), c => t.push(c) } }
    t.push('"'); t
}
fn cut(s: &str) -> String { if s.chars().count() > 3000 { s.chars().take(3000).collect::<String>() + "..." } else { s.into() } }
impl Ctx {
    pub fn fail(&self, what: &str, expected: &str, got: &str) -> ! {
        let t = format!("{{\"failed\": true, \"property\": {}, \"case\": {}, \"expected\": {}, \"observed\": {}, \"evaluations\": {}}}\n", q(&self.prop), q(&cut(what)), q(&cut(expected)), q(&cut(got)), self.n);
        std::fs::write(&self.out, t).unwrap();
        println!("FAIL {what}\n expected {expected}\n observed {got}");
        std::process::exit(1)
    }
    pub fn begin(&self, what: &str) { std::fs::write(format!("{}.cur", self.out), what).unwrap(); *NOW.lock().unwrap() = Some((Instant::now(), what.to_string())) }
    pub fn done(&self) { *NOW.lock().unwrap() = None }
    pub fn case(&mut self, s: &str) {
        self.n += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h);
        if self.seen.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 12 && self.n % 97 == 0)) { self.samples.push(cut(s)) }
        if std::env::var("VX_TRACE").is_ok() { eprintln!("{s}") }
    }
}
pub fn drive(run: fn(&mut Ctx)) {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Ctx { r: R(a[2].parse::<u64>().unwrap().wrapping_mul(7919) + 17), rounds: a[3].parse().unwrap(), lits: a[5..].iter().map(|x| x.parse().unwrap()).collect(), out: a[4].clone(), prop: a[1].clone(), n: 0, seen: HashSet::new(), samples: vec![] };
    std::panic::set_hook(Box::new(|i| if std::env::var("VX_TRACE").is_ok() { eprintln!("{i}") }));
    let (out, prop) = (c.out.clone(), c.prop.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some((t, w)) = &*NOW.lock().unwrap() { if t.elapsed() > Duration::from_secs(LIMIT) {
            let s = format!("{{\"failed\": true, \"property\": {}, \"case\": {}, \"expected\": \"an answer\", \"observed\": \"none within {LIMIT} s\", \"evaluations\": 0}}\n", q(&prop), q(&cut(w)));
            std::fs::write(&out, s).unwrap(); std::process::exit(1)
        } }
    });
    // a thread with a stack of its own size, so that the depth that can be explored does not depend on the caller's limits
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut c)));
        if let Err(e) = r { let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); eprintln!("replay: {m}"); std::process::exit(9) }
        let t = format!("{{\"failed\": false, \"property\": {}, \"evaluations\": {}, \"distinct\": {}, \"samples\": [{}]}}\n", q(&c.prop), c.n, c.seen.len(), c.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
        std::fs::write(&c.out, t).unwrap();
    }).unwrap().join().unwrap();
}
