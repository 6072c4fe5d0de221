//! GlobalSymbolTable: replay of specification behaviours, and concurrent histories.
#![feature(new_range_api)]
use oak_core::language::UniversalElementRole;
use oak_resolver::GlobalSymbolTable;
use oak_symbols::SymbolInformation;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use vf_util::*;

fn info(f: &str, x: &Value) -> SymbolInformation {
    let c = s(&x["c"]);
    let t = u(&x["tag"]);
    SymbolInformation { name: s(&x["n"]).into(), role: UniversalElementRole::Definition, uri: f.into(), range: (t..t + 1).into(), container_name: if c.is_empty() { None } else { Some(c.into()) } }
}
fn back(i: &SymbolInformation) -> Value { json!({"c": i.container_name.clone().unwrap_or_default(), "n": i.name, "tag": i.range.start}) }
fn backf(i: &SymbolInformation) -> Value { json!({"f": i.uri.to_string(), "x": back(i)}) }
fn sorted(v: Vec<Value>) -> Vec<String> { let mut r: Vec<String> = v.iter().map(|x| x.to_string()).collect(); r.sort(); r }

fn check(t: &GlobalSymbolTable, exp: &Value) -> Result<(), String> {
    for (f, syms) in exp["files"].as_object().unwrap() {
        let got: Vec<Value> = t.query_file(f).iter().map(back).collect();
        if Value::Array(got.clone()) != *syms { return Err(format!("query_file({f}) = {got:?}, expected {syms}")); }
    }
    for (q, defs) in exp["lookups"].as_object().unwrap() {
        match t.lookup(q) {
            None => if !arr(defs).is_empty() { return Err(format!("lookup({q}) found nothing, but {defs} define it")); },
            Some(i) => if !arr(defs).contains(&backf(&i)) { return Err(format!("lookup({q}) = {}, current definitions: {defs}", backf(&i))); },
        }
    }
    for q in exp["queries"].as_object().unwrap().values() {
        let got = sorted(t.query(s(&q["q"])).iter().map(backf).collect());
        if got != sorted(arr(&q["r"]).clone()) { return Err(format!("query({}) = {got:?}, expected {}", q["q"], q["r"])); }
    }
    if t.lookup("nope").is_some() || !t.query_file("file:///w/other").is_empty() { return Err("answer for an unknown name or file".into()); }
    Ok(())
}

fn replay(path: &str) {
    let mut sum = Summary::new();
    for h in read_lines(path) {
        sum.evaluated += 1;
        let t = GlobalSymbolTable::new();
        for (n, st) in arr(&h).iter().enumerate() {
            let f = s(&st["f"]);
            let r = guard(|| {
                t.update_file_symbols(f.into(), arr(&st["syms"]).iter().map(|x| info(f, x)).collect());
                check(&t, &st["exp"])
            });
            let r = match r { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) };
            if let Err(m) = r { sum.bad(json!({"step": n + 1, "what": m, "history": arr(&h).iter().map(|x| json!({"f": x["f"], "syms": x["syms"]})).collect::<Vec<_>>()})); break; }
        }
        if sum.evaluated % 5000 == 7 { sum.sample(json!(arr(&h).iter().map(|x| json!({"f": x["f"], "syms": x["syms"]})).collect::<Vec<_>>())); }
    }
    sum.print();
}

fn histories(out: &str, seed: u64, rounds: usize) {
    let files = ["file:///w/a", "file:///w/b"];
    let shapes: Vec<Vec<(&str, &str)>> = vec![vec![], vec![("", "a")], vec![("", "a"), ("", "b")], vec![("C", "m")], vec![("", "a"), ("C", "m")]];
    let names = ["a", "b", "C::m"];
    let mut rng = Rng::new(seed ^ 77);
    let n = 3;
    let mut seen = HashSet::new();
    let mut w = LineWriter::new(out);
    let (barrier, clock, go, stop) = (std::sync::Barrier::new(n + 1), AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let shared: std::sync::RwLock<(Vec<Vec<(u8, usize, Vec<Value>)>>, GlobalSymbolTable)> = std::sync::RwLock::new((vec![], GlobalSymbolTable::new()));
    let results: Vec<std::sync::Mutex<Vec<Value>>> = (0..n).map(|_| Default::default()).collect();
    let mut overlapping = 0;
    std::thread::scope(|sc| {
        for t in 0..n {
            let (barrier, clock, go, stop, shared, results) = (&barrier, &clock, &go, &stop, &shared, &results);
            sc.spawn(move || loop {
                barrier.wait();
                if stop.load(Ordering::SeqCst) == 1 { return; }
                let mut raw = vec![];
                {
                    let g = shared.read().unwrap();
                    let tab = &g.1;
                    let prep: Vec<_> = g.0[t].iter().map(|(op, k, syms)| (*op, *k, syms.iter().map(|x| info(files[*k % 2], x)).collect::<Vec<_>>())).collect();
                    go.fetch_add(1, Ordering::SeqCst);
                    while go.load(Ordering::SeqCst) < n { std::hint::spin_loop() }
                    for (op, k, syms) in prep {
                        let a = clock.fetch_add(1, Ordering::SeqCst);
                        let mut res = vec![];
                        match op {
                            0 => tab.update_file_symbols(files[k].into(), syms),
                            1 => res.extend(tab.lookup(names[k])),
                            2 => res = tab.query_file(files[k]),
                            _ => res = tab.query(["", "m"][k]),
                        }
                        let b = clock.fetch_add(1, Ordering::SeqCst);
                        raw.push((op, k, a, b, res));
                    }
                    let mut o = vec![];
                    for ((op, k, a, b, res), (_, _, syms)) in raw.into_iter().zip(g.0[t].iter()) {
                        o.push(match op {
                            0 => json!({"t": t, "inv": a, "ret": b, "op": "update", "f": files[k], "syms": syms}),
                            1 => json!({"t": t, "inv": a, "ret": b, "op": "lookup", "q": names[k], "res": res.iter().map(backf).collect::<Vec<_>>()}),
                            2 => json!({"t": t, "inv": a, "ret": b, "op": "file", "f": files[k], "res": res.iter().map(back).collect::<Vec<_>>()}),
                            _ => json!({"t": t, "inv": a, "ret": b, "op": "query", "hits": if k == 0 { names.to_vec() } else { vec!["C::m"] }, "res": res.iter().map(backf).collect::<Vec<_>>()}),
                        });
                    }
                    *results[t].lock().unwrap() = o;
                }
                barrier.wait();
            });
        }
        for _ in 0..rounds {
            let mut tag = 0;
            let mut prog = |rng: &mut Rng, wr: bool, len: usize| -> Vec<(u8, usize, Vec<Value>)> {
                (0..len).map(|_| {
                    let op = if wr { 0 } else { *rng.pick(&[0u8, 1, 1, 1, 2, 3]) };
                    let k = match op { 1 => rng.below(3), _ => rng.below(2) };
                    tag += 10;
                    let syms = rng.pick(&shapes).iter().enumerate().map(|(i, (c, m))| json!({"c": c, "n": m, "tag": tag + i})).collect();
                    (op, k, syms)
                }).collect()
            };
            let mut progs = vec![prog(&mut rng, true, 2)];
            for _ in 1..n { let l = rng.range(1, 3); progs.push(prog(&mut rng, false, l)); }
            *shared.write().unwrap() = (progs, GlobalSymbolTable::new());
            clock.store(0, Ordering::SeqCst); go.store(0, Ordering::SeqCst);
            barrier.wait(); barrier.wait();
            let mut ops: Vec<Value> = vec![];
            for r in &results { ops.append(&mut r.lock().unwrap()); }
            // quiescent queries, after everything returned
            let tab = &shared.read().unwrap().1;
            let base = 1000;
            for (k, q) in names.iter().enumerate() { ops.push(json!({"t": 9, "inv": base + 2 * k, "ret": base + 2 * k + 1, "op": "lookup", "q": q, "res": tab.lookup(q).iter().map(backf).collect::<Vec<_>>()})); }
            ops.push(json!({"t": 9, "inv": 1100, "ret": 1101, "op": "query", "hits": names, "res": tab.query("").iter().map(backf).collect::<Vec<_>>()}));
            for (k, f) in files.iter().enumerate() { ops.push(json!({"t": 9, "inv": 1200 + 2 * k, "ret": 1201 + 2 * k, "op": "file", "f": f, "res": tab.query_file(f).iter().map(back).collect::<Vec<_>>()})); }
            if ops.iter().any(|a| ops.iter().any(|b| a["t"] != b["t"] && u(&a["inv"]) < u(&b["inv"]) && u(&b["inv"]) < u(&a["ret"]))) { overlapping += 1; }
            ops.sort_by_key(|o| u(&o["inv"]));
            let h = json!({"ops": ops});
            if seen.insert(h.to_string()) { w.put(&h); }
        }
        stop.store(1, Ordering::SeqCst);
        barrier.wait();
    });
    let mut sum = Summary::new();
    sum.evaluated = w.done();
    sum.extra.insert("executions".into(), json!(rounds));
    sum.extra.insert("with_overlap".into(), json!(overlapping));
    sum.print();
}

fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "replay" => replay(&arg(2)),
        "histories" => histories(&arg(2), argn(3), argn(4) as usize),
        x => panic!("mode {x}"),
    }
}
