//! Helpers shared by the harness crates: RNG, JSON lines, summaries, panic capture.
pub use serde_json::{self, json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// SplitMix64: deterministic and independent of library versions.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi + 1 - lo) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
}

pub fn read_lines(path: &str) -> impl Iterator<Item = Value> {
    let f = std::io::BufReader::with_capacity(1 << 20, std::fs::File::open(path).expect("open input"));
    f.lines().map(|l| serde_json::from_str(&l.expect("read")).expect("json line"))
}

pub struct LineWriter { w: BufWriter<std::fs::File>, pub n: usize }
impl LineWriter {
    pub fn new(path: &str) -> Self { LineWriter { w: BufWriter::with_capacity(1 << 20, std::fs::File::create(path).expect("create")), n: 0 } }
    pub fn put(&mut self, v: &Value) { serde_json::to_writer(&mut self.w, v).unwrap(); self.w.write_all(b"\n").unwrap(); self.n += 1; }
    pub fn sync(&mut self) { self.w.flush().unwrap() }
    pub fn done(mut self) -> usize { self.w.flush().unwrap(); self.n }
}

#[derive(Default)]
pub struct Summary { pub evaluated: usize, pub violations: Vec<Value>, pub samples: Vec<Value>, pub extra: serde_json::Map<String, Value> }
impl Summary {
    pub fn new() -> Self { Self::default() }
    pub fn bad(&mut self, v: Value) { if self.violations.len() < 20 { self.violations.push(v) } }
    pub fn sample(&mut self, v: Value) { if self.samples.len() < 3 { self.samples.push(v) } }
    pub fn print(self) {
        let mut m = self.extra;
        m.insert("evaluated".into(), json!(self.evaluated));
        m.insert("violations".into(), json!(self.violations));
        m.insert("samples".into(), json!(self.samples));
        println!("{}", Value::Object(m));
    }
}

/// Runs code under test: a panic is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}
thread_local! { static GUARDED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }
/// Only panics that nobody expects are reported.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if GUARDED.try_with(|g| g.get()) == Ok(0) {
            eprintln!("{i}")
        }
    }));
}

pub fn arg(i: usize) -> String { std::env::args().nth(i).unwrap_or_default() }
pub fn argn(i: usize) -> u64 { arg(i).parse().unwrap_or(0) }
pub fn s(v: &Value) -> &str { v.as_str().expect("string") }
pub fn u(v: &Value) -> usize { v.as_u64().expect("unsigned") as usize }
pub fn i(v: &Value) -> i64 { v.as_i64().expect("int") }
pub fn arr(v: &Value) -> &Vec<Value> { v.as_array().expect("array") }
