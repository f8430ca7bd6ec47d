//! Small shared pieces: deterministic generator, JSON event writer, event log, watchdog.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 { r.u64(); }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n.
    pub fn n(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    /// Uniform in lo..=hi.
    pub fn i(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.u64() % ((hi - lo + 1) as u64)) as i64 }
    pub fn b(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.n(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
    /// Uniform in [0,1).
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn fr(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.f() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.n(i + 1); v.swap(i, j); }
    }
}

pub const NAN_I: i64 = 2_000_000_001;
pub const INF_I: i64 = 2_000_000_002;
pub const CLIP_I: i64 = 1_999_999_999;
/// x * scale as an integer within 32 bits; the special values have codes of their own.
pub fn q(x: f32, scale: f64) -> i64 {
    if x.is_nan() { return NAN_I; }
    if x.is_infinite() { return if x > 0. { INF_I } else { -INF_I }; }
    let v = (x as f64 * scale).round();
    if v > CLIP_I as f64 { CLIP_I } else if v < -CLIP_I as f64 { -CLIP_I } else { v as i64 }
}
/// Order preserving map of floats to 32-bit integers (both zeros map to 0); NaN has its own code.
pub fn ord(x: f32) -> i64 {
    if x.is_nan() { return NAN_I; }
    let b = x.to_bits();
    if b & 0x8000_0000 != 0 { -((b & 0x7fff_ffff) as i64) } else { b as i64 }
}

/// JSON object under construction.
#[derive(Clone)]
pub struct Ev(String);
impl Ev {
    pub fn new(e: &str) -> Ev { Ev(format!("{{\"e\":\"{}\"", e)) }
    pub fn i(mut self, k: &str, v: i64) -> Ev { self.0 += &format!(",\"{}\":{}", k, v); self }
    pub fn b(mut self, k: &str, v: bool) -> Ev { self.0 += &format!(",\"{}\":{}", k, v); self }
    pub fn s(mut self, k: &str, v: &str) -> Ev { self.0 += &format!(",\"{}\":{}", k, jstr(v)); self }
    pub fn a(mut self, k: &str, v: &[i64]) -> Ev { self.0 += &format!(",\"{}\":{}", k, jarr(v)); self }
    pub fn aa(mut self, k: &str, v: &[Vec<i64>]) -> Ev {
        let t: Vec<String> = v.iter().map(|x| jarr(x)).collect();
        self.0 += &format!(",\"{}\":[{}]", k, t.join(",")); self
    }
    pub fn raw(mut self, k: &str, v: &str) -> Ev { self.0 += &format!(",\"{}\":{}", k, v); self }
    pub fn end(mut self) -> String { self.0.push('}'); self.0 }
}
pub fn jarr(v: &[i64]) -> String {
    let t: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", t.join(","))
}
pub fn jstr(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c { '"' => s += "\\\"", '\\' => s += "\\\\", c if (c as u32) < 32 || (c as u32) > 126 => s.push('?'), c => s.push(c) }
    }
    s.push('"');
    s
}

/// Trace files: `shards` ndjson files, one behaviour (unit) never split over two.
pub struct Out { files: Vec<BufWriter<File>>, cur: usize, pub units: u64, pub events: u64 }
impl Out {
    pub fn new(dir: &str, shards: usize) -> Out {
        let files = (0..shards).map(|i| BufWriter::new(File::create(format!("{}/trace{}.ndjson", dir, i)).unwrap())).collect();
        Out { files, cur: 0, units: 0, events: 0 }
    }
    pub fn unit(&mut self) { self.units += 1; self.cur = (self.cur + 1) % self.files.len(); }
    pub fn put(&mut self, line: String) {
        self.events += 1;
        self.files[self.cur].write_all(line.as_bytes()).unwrap();
        self.files[self.cur].write_all(b"\n").unwrap();
    }
    pub fn finish(&mut self) { for f in self.files.iter_mut() { f.flush().unwrap(); } println!("UNITS {} EVENTS {}", self.units, self.events); }
}

// ---- code under test may panic or hang: both are observations ----
static CASE: Mutex<String> = Mutex::new(String::new());
static STARTED: AtomicU64 = AtomicU64::new(0);
static CASE_FILE: Mutex<Option<String>> = Mutex::new(None);

fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }

/// Start the watchdog: a case that runs longer than `secs` ends the process with status 42.
pub fn watchdog(dir: &str, secs: u64) {
    *CASE_FILE.lock().unwrap() = Some(format!("{}/case.txt", dir));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && now() > s + secs * 1000 {
            let c = CASE.lock().unwrap().clone();
            if let Some(p) = CASE_FILE.lock().unwrap().clone() { let _ = std::fs::write(p, format!("HANG after {}s in: {}\n", secs, c)); }
            unsafe { libc::_exit(42) };
        }
    });
}
pub fn case_begin(desc: &dyn Fn() -> String) {
    let d = desc();
    *CASE.lock().unwrap() = d;
    STARTED.store(now(), Ordering::SeqCst);
}
pub fn case_end() { STARTED.store(0, Ordering::SeqCst); }
pub fn case_file(text: &str) {
    if let Some(p) = CASE_FILE.lock().unwrap().clone() { let _ = std::fs::write(p, text); }
}

/// Run code under test; a panic becomes Err(message).
pub fn guard<T>(desc: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    case_begin(desc);
    let r = catch_unwind(AssertUnwindSafe(f));
    case_end();
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".to_string() }
    })
}

pub struct Args { pub seed: u64, pub thorough: bool, pub dir: String, pub input: Option<String>, pub shards: usize, pub n: Option<usize>, pub extra: Vec<String> }
impl Args {
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if let Some(n) = self.n { return n; }
        if self.thorough { thorough } else { quick }
    }
}
