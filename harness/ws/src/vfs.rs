//! MemoryVfs: replay of specification behaviours, and recording of concurrent histories.
#![feature(new_range_api)]
use oak_core::{Source, source::SourceId};
use oak_vfs::{FileType, MemoryVfs, Vfs, WritableVfs};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use vf_util::*;

fn text(c: &str) -> &'static str {
    match c { "c0" => "", "c1" => "x\n", "c2" => "é中😀\r\n", _ => panic!("content {c}") }
}
fn name(t: &str) -> String {
    for c in ["c0", "c1", "c2"] { if text(c) == t { return c.into(); } }
    format!("?{t}")
}

struct Bind { to_real: BTreeMap<u64, SourceId>, used: HashMap<SourceId, u64> }

/// Checks every query of every handle against the expected observation.
fn observe(hs: &[MemoryVfs], exp: &Value, b: &mut Bind) -> Result<(), String> {
    for v in hs {
        let mut listing = HashSet::new();
        for (u, e) in exp["files"].as_object().unwrap() {
            let present = e["exists"].as_bool().unwrap();
            if v.exists(u) != present { return Err(format!("exists({u}) = {}", !present)); }
            let src = v.get_source(u);
            let id = v.get_id(u);
            let md = v.metadata(u);
            if src.is_some() != present || id.is_some() != present || md.is_some() != present {
                return Err(format!("{u}: get_source {} get_id {:?} metadata {:?}, expected present={present}", src.is_some(), id, md));
            }
            if v.is_file(u) != present || v.is_dir(u) { return Err(format!("is_file/is_dir({u}) wrong")); }
            if v.line_map(u).is_some() != present { return Err(format!("line_map({u}) wrong")); }
            if !present { continue; }
            listing.insert(u.clone());
            let (src, id, md) = (src.unwrap(), id.unwrap(), md.unwrap());
            let want = text(s(&e["text"]));
            let got = src.get_text_in((0..src.length()).into()).to_string();
            if got != want { return Err(format!("get_source({u}) = {got:?}, expected {want:?}")); }
            if md.len != want.len() as u64 || md.file_type != FileType::File || md.modified.is_none() { return Err(format!("metadata({u}) = {md:?}, expected length {}", want.len())); }
            if src.source_id() != Some(id) { return Err(format!("{u}: text tagged with id {:?} but get_id = {id}", src.source_id())); }
            let n = e["id"].as_u64().unwrap();
            match b.to_real.get(&n) {
                Some(r) => { if *r != id { return Err(format!("{u}: id changed from {r} to {id}")); } }
                None => {
                    if let Some(m) = b.used.get(&id) { return Err(format!("{u}: id {id} was already handed out (document #{m})")); }
                    b.to_real.insert(n, id);
                    b.used.insert(id, n);
                }
            }
        }
        for (k, u) in arr(&exp["ids"]).iter().enumerate() {
            let real = b.to_real[&(k as u64 + 1)];
            let got = v.get_uri(real).map(|x| x.to_string()).unwrap_or_else(|| "none".into());
            if got != s(u) { return Err(format!("get_uri(id #{}) = {got}, expected {}", k + 1, s(u))); }
        }
        let l: Vec<_> = v.read_dir("mem:/").unwrap_or_default().iter().map(|x| x.to_string()).collect();
        let ls: HashSet<_> = l.iter().cloned().collect();
        if ls.len() != l.len() || ls != listing { return Err(format!("read_dir = {l:?}, expected {listing:?}")); }
    }
    Ok(())
}

fn replay(path: &str) {
    let mut sum = Summary::new();
    for h in read_lines(path) {
        sum.evaluated += 1;
        let a = MemoryVfs::new();
        let hs = [a.clone(), a];
        let mut b = Bind { to_real: BTreeMap::new(), used: HashMap::new() };
        for (n, st) in arr(&h).iter().enumerate() {
            let v = &hs[u(&st["h"])];
            let r = guard(|| {
                match s(&st["op"]) {
                    // both spellings of the API must behave alike
                    "write" => if n % 2 == 0 { v.write_file(s(&st["u"]), text(s(&st["c"]))) } else { WritableVfs::write_file(v, s(&st["u"]), text(s(&st["c"])).into()) },
                    _ => if n % 2 == 0 { v.remove_file(s(&st["u"])) } else { WritableVfs::remove_file(v, s(&st["u"])) },
                }
                observe(&hs, &st["exp"], &mut b)
            });
            let r = match r { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) };
            if let Err(m) = r { sum.bad(json!({"step": n + 1, "what": m, "history": h})); break; }
        }
        if sum.evaluated % 5000 == 7 { sum.sample(h); }
    }
    sum.print();
}

/// Concurrent histories: threads run small programs against one shared store; every call is
/// stamped before and after with a global counter. Identical histories are recorded once.
fn histories(out: &str, seed: u64, rounds: usize) {
    let mut seen: HashSet<String> = HashSet::new();
    let mut w = LineWriter::new(out);
    let mut rng = Rng::new(seed);
    let uris = ["mem:/a", "mem:/b"];
    let mut total = 0usize;
    let mut overlapping = 0usize;
    let nthreads = 3;
    let barrier = std::sync::Barrier::new(nthreads + 1);
    let clock = AtomicUsize::new(0);
    let go = AtomicUsize::new(0);
    type Prog = Vec<(u8, usize, usize)>;
    let shared: std::sync::RwLock<(Vec<Prog>, Option<MemoryVfs>, Vec<SourceId>)> = std::sync::RwLock::new((vec![], None, vec![]));
    let results: Vec<std::sync::Mutex<Vec<(u8, usize, usize, usize, usize, String)>>> = (0..nthreads).map(|_| Default::default()).collect();
    let stop = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (barrier, clock, shared, results, stop, go) = (&barrier, &clock, &shared, &results, &stop, &go);
            sc.spawn(move || loop {
                barrier.wait();
                if stop.load(Ordering::SeqCst) == 1 { return; }
                {
                    let g = shared.read().unwrap();
                    let v = g.1.as_ref().unwrap().clone();
                    let mut res = vec![];
                    go.fetch_add(1, Ordering::SeqCst);
                    while go.load(Ordering::SeqCst) < nthreads { std::hint::spin_loop() }
                    for &(op, ui, ci) in &g.0[t] {
                        let uri = uris[ui];
                        let a = clock.fetch_add(1, Ordering::SeqCst);
                        let r = match op {
                            0 => { v.write_file(uri, text(["c0", "c1", "c2"][ci])); String::new() }
                            1 => { v.remove_file(uri); String::new() }
                            2 => v.get_source(uri).map(|x| format!("{}#{}", name(&x.get_text_in((0..x.length()).into())), x.source_id().map(|i| i as i64).unwrap_or(-1))).unwrap_or("none".into()),
                            3 => v.get_id(uri).map(|x| format!("#{x}")).unwrap_or("none".into()),
                            4 => v.exists(uri).to_string(),
                            5 => v.metadata(uri).map(|m| m.len.to_string()).unwrap_or("none".into()),
                            6 => { let mut l: Vec<_> = v.read_dir("mem:/").unwrap().iter().map(|x| x.to_string()).collect(); l.sort(); l.join(",") }
                            _ => v.get_uri(g.2[ci.min(g.2.len() - 1)]).map(|x| x.to_string()).unwrap_or("none".into()),
                        };
                        let b = clock.fetch_add(1, Ordering::SeqCst);
                        res.push((op, ui, ci, a, b, r));
                    }
                    *results[t].lock().unwrap() = res;
                }
                barrier.wait();
            });
        }
        for _ in 0..rounds {
            let v = MemoryVfs::new();
            // A common start so that the ids queried by get_uri are known: a and b exist, a is #first.
            let mut ids = vec![];
            let pre = rng.below(3);
            for k in 0..pre { v.write_file(uris[k], text("c1")); ids.push(v.get_id(uris[k]).unwrap()); }
            let base = ids.first().copied().unwrap_or(0);
            if ids.is_empty() { ids.push(base); }
            // ids that do not exist yet but will, if the store numbers consecutively; harmless otherwise
            let probe: Vec<SourceId> = { let last = *ids.last().unwrap(); let mut x = ids.clone(); for k in 1..4 { x.push(last.wrapping_add(k)); } x };
            let progs: Vec<Prog> = (0..nthreads).map(|t| (0..rng.range(1, 3)).map(|_| {
                let op = if t == 0 { *rng.pick(&[0u8, 0, 1, 1]) } else { *rng.pick(&[0u8, 1, 2, 2, 3, 3, 4, 5, 6, 7, 7]) };
                (op, rng.below(2), if op == 7 { rng.below(probe.len()) } else { rng.below(3) })
            }).collect()).collect();
            { let mut g = shared.write().unwrap(); *g = (progs, Some(v), probe.clone()); }
            clock.store(0, Ordering::SeqCst); go.store(0, Ordering::SeqCst);
            barrier.wait();
            barrier.wait();
            let mut ops = vec![];
            for t in 0..nthreads { for r in results[t].lock().unwrap().drain(..) { ops.push((t, r)); } }
            total += 1;
            // normalise: ids by first appearance after the known prefix; stamps by rank
            ops.sort_by_key(|o| o.1.3);
            let mut real: Vec<String> = ids[..pre.min(ids.len())].iter().map(|x| x.to_string()).collect();
            let mut norm = |x: &str| -> i64 { if let Some(k) = real.iter().position(|r| r == x) { k as i64 + 1 } else { real.push(x.into()); real.len() as i64 } };
            let mut recs = vec![];
            let mut overlap = false;
            for k in 0..ops.len() { for m in 0..ops.len() { if ops[k].0 != ops[m].0 && ops[k].1.3 < ops[m].1.3 && ops[m].1.3 < ops[k].1.4 { overlap = true; } } }
            for (t, (op, ui, ci, a, b, r)) in &ops {
                let o = ["write", "remove", "source", "id", "exists", "len", "list", "uri"][*op as usize];
                let (mut rv, mut id) = (r.clone(), 0i64);
                if *op == 2 || *op == 3 { if let Some((x, y)) = r.split_once('#') { rv = if *op == 2 { x.into() } else { "some".into() }; id = norm(y); } }
                if *op == 7 { id = norm(&probe[(*ci).min(probe.len() - 1)].to_string()); }
                let c = match *op { 0 => ["c0", "c1", "c2"][*ci], _ => "" };
                recs.push(json!({"t": t, "op": o, "u": uris[*ui], "c": c, "inv": a, "ret": b, "res": rv, "id": id}));
            }
            if overlap { overlapping += 1; }
            let h = json!({"pre": pre, "ops": recs});
            let key = h.to_string();
            if seen.insert(key) { w.put(&h); }
        }
        stop.store(1, Ordering::SeqCst);
        barrier.wait();
    });
    let n = w.done();
    let mut sum = Summary::new();
    sum.evaluated = n;
    sum.extra.insert("executions".into(), json!(total));
    sum.extra.insert("with_overlap".into(), json!(overlapping));
    sum.print();
}

fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "replay" => replay(&arg(2)),
        "histories" => histories(&arg(2), argn(3), argn(4) as usize),
        x => panic!("mode {x}"),
    }
}
