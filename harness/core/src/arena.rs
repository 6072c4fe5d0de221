//! Histories of arena allocations: contents, alignment, disjointness, memory given back.
#![feature(new_range_api)]
use oak_core::{memory::arena::SyntaxArena, tree::{ProvenancePart, TokenProvenance}};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
use vf_util::*;

/// Counts the bytes of chunk-sized and larger blocks held from the system.
struct Counting;
static HELD: AtomicIsize = AtomicIsize::new(0);
fn chunk(l: &Layout) -> bool { l.size() >= 65536 && l.align() == 8 }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if chunk(&l) { HELD.fetch_add(1, SeqCst); } unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if chunk(&l) { HELD.fetch_sub(1, SeqCst); } unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: Counting = Counting;

const UNIT: usize = 8192;
#[derive(Clone)]
struct Live { at: usize, bytes: usize, seed: u64 }
static TABLE: std::sync::LazyLock<Vec<u8>> = std::sync::LazyLock::new(|| { let mut r = Rng::new(7); (0..500_000).map(|_| r.next() as u8).collect() });
fn slice(seed: u64, n: usize) -> &'static [u8] { let o = (seed % 200_000) as usize; &TABLE[o..o + n] }
fn byte(seed: u64, i: usize) -> u8 { slice(seed, i + 1)[i] }
fn bytes(seed: u64, n: usize) -> Vec<u8> { slice(seed, n).to_vec() }
#[derive(Clone, Copy)]
#[repr(C, align(8))]
struct Big([u8; UNIT]);

fn alloc(a: &SyntaxArena, kind: &str, units: usize, seed: u64, rng: &mut Rng) -> Result<Live, String> {
    let jitter = [-9i64, -8, -7, -1, 0, 1, 7, 8, 9][rng.below(9)];
    let n = (units as i64 * UNIT as i64 + jitter).max(0) as usize;
    let al = |p: usize, align: usize| if p % align != 0 { Err(format!("a value of alignment {align} lies at {p:#x}")) } else { Ok(()) };
    Ok(match kind {
        "v" if units == 1 => { let v = Big(bytes(seed, UNIT).try_into().unwrap()); let r = a.alloc(v); al(r as *mut Big as usize, 8)?; Live { at: r as *mut Big as usize, bytes: UNIT, seed } }
        "v" if units == 0 => match rng.below(4) {
            0 => { let r = a.alloc(byte(seed, 0)); Live { at: r as *mut u8 as usize, bytes: 1, seed } }
            1 => { let r = a.alloc(u64::from_le_bytes(bytes(seed, 8).try_into().unwrap())); al(r as *mut u64 as usize, 8)?; Live { at: r as *mut u64 as usize, bytes: 8, seed } }
            2 => { let b = bytes(seed, 24); let r = a.alloc::<[u8; 24]>(b.try_into().unwrap()); Live { at: r as *mut [u8; 24] as usize, bytes: 24, seed } }
            _ => { let r = a.alloc(()); Live { at: r as *mut () as usize, bytes: 0, seed } }
        },
        "fill" => {
            let k = n / 4;
            let b = bytes(seed, k * 4);
            let r = a.alloc_slice_fill_iter(k, b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())));
            if r.len() != k { return Err("a filled slice has the wrong length".into()); }
            al(r.as_ptr() as usize, 4)?;
            Live { at: r.as_ptr() as usize, bytes: k * 4, seed }
        }
        "copy" if rng.chance(1, 2) => {
            let k = n / 8;
            let b = bytes(seed, k * 8);
            let w: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            let r = a.alloc_slice_copy(&w);
            if r.len() != k { return Err("a copied slice has the wrong length".into()); }
            al(r.as_ptr() as usize, 8)?;
            Live { at: r.as_ptr() as usize, bytes: k * 8, seed }
        }
        _ => {
            let b = bytes(seed, n);
            let r = a.alloc_slice_copy(&b);
            if r.len() != n { return Err("a copied slice has the wrong length".into()); }
            Live { at: r.as_ptr() as usize, bytes: n, seed }
        }
    })
}
type Arenas = BTreeMap<usize, (SyntaxArena, Vec<Live>, Vec<(std::num::NonZeroU32, TokenProvenance)>)>;
fn intact(l: &Live) -> Result<(), String> {
    if l.bytes == 0 { return Ok(()); }
    let b = unsafe { std::slice::from_raw_parts(l.at as *const u8, l.bytes) };
    if b != slice(l.seed, l.bytes) { return Err(format!("the content of an allocation of {} bytes changed", l.bytes)); }
    Ok(())
}
fn disjoint(m: &Arenas) -> Result<(), String> {
    let mut v: Vec<(usize, usize)> = m.values().flat_map(|x| x.1.iter()).filter(|l| l.bytes > 0).map(|l| (l.at, l.at + l.bytes)).collect();
    v.sort();
    if let Some(w) = v.windows(2).find(|w| w[0].1 > w[1].0) { return Err(format!("two live allocations share memory: {:?} and {:?}", w[0], w[1])); }
    Ok(())
}
fn run(h: &[Value], rng: &mut Rng) -> Result<(), (usize, String)> {
    let mut m: Arenas = BTreeMap::new();
    for (k, st) in h.iter().enumerate() {
        let id = u(&st["a"]);
        let bad = |e: String| (k, e);
        match s(&st["op"]) {
            "new" => { m.insert(id, (SyntaxArena::new(rng.below(3)), vec![], vec![])); }
            "drop" => {
                let (a, _, _) = m.remove(&id).unwrap();
                if s(&st["where"]) == "here" { drop(a) } else { std::thread::spawn(move || drop(a)).join().unwrap() }
            }
            _ => {
                let (a, live, meta) = m.get_mut(&id).unwrap();
                let kind = s(&st["kind"]);
                let seed = rng.next();
                if kind == "meta" {
                    let p = TokenProvenance { parts: vec![ProvenancePart::Synthesized(format!("{seed}"))] };
                    let i = a.add_metadata(p.clone());
                    if meta.iter().any(|x| x.0 == i) { return Err(bad("two metadata entries share an index".into())); }
                    meta.push((i, p));
                } else {
                    let kind = if k % 3 == 2 && kind == "v" { "copy" } else { kind };
                    let l = alloc(a, kind, u(&st["n"]), seed, rng).map_err(bad)?;
                    live.push(l);
                }
            }
        }
        for (a, live, meta) in m.values() {
            for l in live.iter().rev().take(if k + 1 == h.len() { usize::MAX } else { 3 }) { intact(l).map_err(bad)?; }
            for (i, p) in meta { if a.get_metadata(*i) != Some(p) { return Err(bad("metadata changed".into())); } }
        }
        disjoint(&m).map_err(bad)?;
    }
    Ok(())
}
fn main() {
    quiet_panics();
    assert_eq!(arg(1), "arenas");
    let mut sum = Summary::new();
    let mut rng = Rng::new(argn(3));
    let lines: Vec<Value> = read_lines(&arg(2)).collect();
    let base = { TABLE.len(); HELD.load(SeqCst) };
    for h in &lines {
        sum.evaluated += 1;
        let h = arr(h);
        let before = HELD.load(SeqCst) - base;
        let r = guard(|| run(h, &mut rng)).unwrap_or_else(|e| Err((usize::MAX, format!("panic: {e}"))));
        let short = || json!(h.iter().map(|x| json!([x["op"], x["a"], x.get("n"), x.get("kind")])).collect::<Vec<_>>());
        if let Err((k, m)) = r { sum.bad(json!({"what": m, "step": k, "behaviour": short()})); }
        // everything this history allocated is dropped: only the pool of this thread may keep chunks
        let after = HELD.load(SeqCst) - base;
        if after > 64 || after < 0 { sum.bad(json!({"what": format!("{after} chunks are still held ({before} before) although no arena exists"), "behaviour": short()})); break; }
        if sum.evaluated % 1000 == 7 { sum.sample(short()); }
    }
    // many arenas at once, more chunks than the pool keeps, then a thread that leaves with a filled pool
    for round in 0..3 {
        let go = move || { let v: Vec<SyntaxArena> = (0..40 + 40 * round).map(|_| SyntaxArena::new(1)).collect(); for a in &v { a.alloc_slice_copy(&[1u8; 40000]); a.alloc_slice_copy(&[2u8; 40000]); } drop(v); };
        if round == 2 { std::thread::spawn(go).join().unwrap() } else { go() }
        let held = HELD.load(SeqCst) - base;
        if held > 64 { sum.bad(json!({"what": format!("{held} chunks are still held after many arenas were dropped"), "round": round})); break; }
    }
    sum.extra.insert("chunks_held_at_end".into(), json!(HELD.load(SeqCst) - base));
    sum.print();
}
