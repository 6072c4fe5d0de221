//! The real fixture testers run over scratch directories: what each run answered and what it left recorded.
#![feature(new_range_api)]
use core::range::Range;
use oak_core::builder::{BuildOutput, Builder, BuilderCache};
use oak_core::errors::{OakDiagnostics, OakError, OakErrorKind};
use oak_core::language::*;
use oak_core::lexer::{LexOutput, Lexer, LexerCache, LexerState};
use oak_core::parser::{ParseCache, ParseOutput, Parser, parse_with_lexer};
use oak_core::source::{Source, TextEdit};
use oak_testing::building::BuilderTester;
use oak_testing::lexing::LexerTester;
use oak_testing::parsing::ParserTester;
use serde::Serialize;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Duration;
use vf_util::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize)]
pub enum T { End, Blank, Word, Bang }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize)]
pub enum K { End, Blank, Word, Bang, Item, Root }
impl From<T> for K { fn from(t: T) -> K { match t { T::End => K::End, T::Blank => K::Blank, T::Word => K::Word, T::Bang => K::Bang } } }
impl TokenType for T {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = T::End;
    fn role(&self) -> UniversalTokenRole { match self { T::End => UniversalTokenRole::Eof, T::Blank => UniversalTokenRole::Whitespace, _ => UniversalTokenRole::Name } }
}
impl ElementType for K {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole { UniversalElementRole::Container }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Lang;
impl Language for Lang {
    const NAME: &'static str = "fixtures";
    type TokenType = T;
    type ElementType = K;
    type TypedRoot = Vec<String>;
}
const SLOW: Duration = Duration::from_millis(900);
const LIMIT: Duration = Duration::from_millis(60);
/// Version 1 accepts everything, version 2 complains about each "!" and gives up on two in a row, version 3 is too slow.
#[derive(Clone, Copy)]
struct V(usize);
fn refused(v: usize, t: &str) -> bool { v == 2 && t.contains("!!") }
impl Lexer<Lang> for V {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _: &[TextEdit], cache: &'a mut impl LexerCache<Lang>) -> LexOutput<Lang> {
        if self.0 == 3 { std::thread::sleep(SLOW) }
        let mut st = LexerState::<S, Lang>::new_with_cache(text, 0, cache);
        while st.not_at_end() {
            let a = st.get_position();
            let k = match st.peek().unwrap() {
                ' ' => { st.take_while(|c| c == ' '); T::Blank }
                '!' => { st.advance(1); if self.0 == 2 { st.add_error(OakError::custom_error(format!("bang at {a}"))) } T::Bang }
                _ => { st.take_while(|c| c != ' ' && c != '!'); T::Word }
            };
            st.add_token(k, a, st.get_position());
        }
        st.add_eof();
        let whole = text.get_text_in(Range { start: 0, end: text.length() }).to_string();
        st.finish_with_cache(if refused(self.0, &whole) { Err(OakError::custom_error("two bangs")) } else { Ok(()) }, cache)
    }
}
impl Parser<Lang> for V {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Lang>) -> ParseOutput<'a, Lang> {
        let mut out = parse_with_lexer(&V(if self.0 == 2 { 1 } else { self.0 }), text, edits, cache, |st| {
            while st.not_at_end() {
                let cp = st.checkpoint();
                let word = st.at(T::Word);
                st.bump();
                if word { st.finish_at(cp, K::Item); }
            }
            Ok(st.finish_at((0, 0), K::Root))
        });
        let whole = text.get_text_in(Range { start: 0, end: text.length() }).to_string();
        if self.0 == 2 { for (a, _) in whole.match_indices('!') { out.diagnostics.push(OakError::custom_error(format!("bang at {a}"))) } }
        if refused(self.0, &whole) { out.result = Err(OakError::custom_error("two bangs")) }
        out
    }
}
impl Builder<Lang> for V {
    fn build<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl BuilderCache<Lang>) -> BuildOutput<Lang> {
        let out = self.lex(text, edits, cache);
        let words = out.result.map(|ts| ts.iter().filter(|t| t.kind == T::Word).map(|t| text.get_text_in(t.span).to_string()).collect());
        OakDiagnostics { result: words, diagnostics: out.diagnostics }
    }
}

/// "e~" stands for one letter of two bytes.
fn real(x: &Value) -> String { arr(x).iter().map(s).collect::<String>().replace("e~", "\u{e9}") }
fn letters(t: &str) -> Value { t.replace('\u{e9}', "e~").chars().map(|c| c.to_string()).collect() }
const NAMES: [(&str, &str); 3] = [("lex", "lexed"), ("parse", "parsed"), ("build", "built")];
fn path(d: &Path, f: &Value) -> PathBuf {
    let p: Vec<&str> = arr(f).iter().map(s).collect();
    let (ext, rest) = p.split_last().unwrap();
    d.join(format!("{}.{ext}", rest.join("/")))
}
fn side(d: &Path, f: &Value, what: &str) -> PathBuf {
    let p = path(d, f);
    let n = format!("{}.{what}.json", p.file_name().unwrap().to_str().unwrap());
    p.with_file_name(n)
}
fn former(d: &Path, f: &Value) -> PathBuf { let p = path(d, f); p.with_file_name(format!("{}.expected.json", p.file_stem().unwrap().to_str().unwrap())) }

/// What a recorded expectation says, in the words of the specification.
fn said(content: &str) -> Value {
    let Ok(v) = serde_json::from_str::<Value>(content) else { return json!(["junk"]) };
    let o = v.as_object().unwrap();
    let faults = || o["errors"].as_array().map_or(json!([99]), |a| a.iter().map(|e| if s(e).ends_with("two bangs") { json!(-1) } else { s(e).rsplit(' ').next().and_then(|n| n.parse::<i64>().ok()).map_or(json!(77), |n| json!(n)) }).collect());
    if o.contains_key("tokens") {
        let ts = arr(&o["tokens"]);
        if u(&o["count"]) != ts.len() { return json!(["other", "lex"]) }
        let toks: Vec<Value> = ts.iter().map(|k| json!([s(&k["kind"]).to_lowercase(), letters(s(&k["text"])), k["start"], k["end"]])).collect();
        return json!(["out", "lex", {"ok": o["success"], "tokens": toks, "faults": faults()}]);
    }
    if o.contains_key("node_count") {
        fn nodes(v: &Value) -> usize { 1 + arr(&v["children"]).iter().map(nodes).sum::<usize>() }
        let root = &o["ast_structure"];
        if u(&o["node_count"]) != nodes(root) { return json!(["other", "parse"]) }
        if o["success"] == false { return if root["kind"] == "Error" && nodes(root) == 1 { json!(["out", "parse", {"ok": false, "nodes": [], "leaves": 0, "rest": 0, "faults": faults()}]) } else { json!(["strange"]) } }
        let leaf = |k: &Value| s(&k["kind"]).strip_prefix("Leaves(").and_then(|x| x.strip_suffix(")")).and_then(|x| x.parse::<usize>().ok()).map(|n| (n, u(&k["text_length"])));
        let (mut ns, mut leaves, mut rest, mut total) = (vec![], 0, 0, 0);
        for k in arr(&root["children"]) {
            total += u(&k["text_length"]);
            if let Some((n, l)) = leaf(k) { leaves += n; rest += l; continue }
            let c = arr(&k["children"]);
            match (s(&k["kind"]), c.len(), c.first().and_then(leaf)) { ("Item", 1, Some((n, l))) if l == u(&k["text_length"]) => ns.push(json!([n, l])), _ => return json!(["strange"]) }
        }
        if root["kind"] != "Root" || total != u(&root["text_length"]) { return json!(["strange"]) }
        return json!(["out", "parse", {"ok": true, "nodes": ns, "leaves": leaves, "rest": rest, "faults": faults()}]);
    }
    if o.contains_key("typed_root") {
        if o.contains_key("changed") || arr(&o["errors"]).iter().any(|e| e == "changed") { return json!(["other", "build"]) }
        let words: Vec<Value> = o["typed_root"].get("content").and_then(|c| c.as_array()).map(|a| a.iter().map(|w| letters(s(w))).collect()).unwrap_or_default();
        if o["typed_root"].is_null() != (o["success"] == false) { return json!(["strange"]) }
        return json!(["out", "build", {"ok": o["success"], "words": words, "faults": faults()}]);
    }
    json!(["junk"])
}
fn run(d: &Path, o: &Value) -> Value {
    let exts: Vec<&str> = arr(&o["exts"]).iter().map(s).collect();
    let v = V(u(&o["v"]));
    // anything but "1" asks for a comparison
    match (o["force"] == true, (u(&o["v"]) + exts.len()) % 3) { (true, _) => unsafe { std::env::set_var("REGENERATE_TESTS", "1") }, (_, 0) => unsafe { std::env::remove_var("REGENERATE_TESTS") }, (_, k) => unsafe { std::env::set_var("REGENERATE_TESTS", ["", "0"][k - 1]) } }
    let limit = if v.0 == 3 { Some(LIMIT) } else { None };
    macro_rules! go { ($t:ty) => {{ let mut t = <$t>::new(d); for e in &exts { t = t.with_extension(e) } if let Some(l) = limit { t = t.with_timeout(l) } t }} }
    let r = guard(|| match s(&o["T"]) { "lex" => go!(LexerTester).run_tests::<Lang, V>(&v), "parse" => go!(ParserTester).run_tests::<Lang, V>(&v), _ => go!(BuilderTester).run_tests::<Lang, V>(&v) });
    match r {
        Err(p) => json!(["panic", p]),
        Ok(Ok(())) => json!(["ok"]),
        Ok(Err(e)) => {
            let (kind, at) = match e.kind() {
                OakErrorKind::TestFailure { path, .. } => ("differs", Some(path.clone())),
                OakErrorKind::TestRegenerated { path } => ("recorded", Some(path.clone())),
                OakErrorKind::IoError { .. } => ("unreadable", None),
                OakErrorKind::CustomError { message } if message.contains("timed out") => ("late", None),
                OakErrorKind::CustomError { .. } => ("broken", None),
                k => return json!(["unexpected", format!("{k:?}")]),
            };
            json!([kind, at.map(|p| p.to_string_lossy().to_string()).unwrap_or_default()])
        }
    }
}

fn main() {
    quiet_panics();
    let base = PathBuf::from(arg(3));
    let files = [json!(["a", "x"]), json!(["d", "b.v2", "x"]), json!(["a", "y"]), json!(["k", "json"])];
    let decoys = ["a.x.bak", "x", "notes.parsed.json", "d/other.built.json", "d/y", "a.X"];
    let mut w = LineWriter::new(&arg(4));
    let mut sum = Summary::new();
    let mut runs = 0;
    // the testers print every file they visit
    let real_out = unsafe { let o = libc::dup(1); let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY); libc::dup2(n, 1); o };
    for h in read_lines(&arg(2)) {
        sum.evaluated += 1;
        let d = base.join(format!("{}", sum.evaluated));
        std::fs::create_dir_all(d.join("d")).unwrap();
        for x in decoys { std::fs::write(d.join(x), x).unwrap() }
        let mut now: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut out = vec![];
        for o in arr(&h) {
            let mut e = o.clone();
            match s(&o["op"]) {
                "put" => {
                    let p = path(&d, &o["f"]);
                    let key = o["f"].to_string();
                    if o["x"] == json!(["-"]) { let _ = std::fs::remove_file(&p); now.remove(&key); }
                    else {
                        let t = real(&o["x"]);
                        let b = if o["x"] == json!(["raw"]) { vec![b'a', 0xff, b'b'] } else { t.into_bytes() };
                        std::fs::write(&p, &b).unwrap();
                        now.insert(key, b);
                    }
                }
                "spoil" => {
                    let p = side(&d, &o["f"], NAMES.iter().find(|n| n.0 == s(&o["T"])).unwrap().1);
                    match s(&o["how"]) {
                        "forget" => { let _ = std::fs::remove_file(&p); }
                        "junk" => std::fs::write(&p, "{\"success\": tr").unwrap(),
                        _ => if p.exists() {
                            // still a record of this tester, but not of any output
                            let t = s(&o["T"]);
                            let v = match t { "lex" => json!({"success": true, "count": 77, "tokens": [], "errors": []}), "parse" => json!({"success": true, "node_count": 77, "ast_structure": {"kind": "Root", "children": [], "text_length": 0, "is_leaf": false}, "errors": []}), _ => json!({"success": true, "typed_root": null, "errors": ["changed"]}) };
                            std::fs::write(&p, v.to_string()).unwrap();
                        },
                    }
                }
                "retire" => {
                    let p = side(&d, &o["f"], NAMES.iter().find(|n| n.0 == s(&o["T"])).unwrap().1);
                    if p.exists() { std::fs::rename(&p, former(&d, &o["f"])).unwrap() }
                }
                _ => {
                    runs += 1;
                    let mut r = run(&d, o);
                    let m = e.as_object_mut().unwrap();
                    if r[0] == "ok" { r = json!(["ok"]) } else {
                        // the file a failure names
                        let p = s(&r[1]).to_string();
                        let f = files.iter().find(|f| path(&d, f).to_string_lossy() == p || NAMES.iter().any(|n| side(&d, f, n.1).to_string_lossy() == p)).cloned();
                        r = json!([r[0], f.unwrap_or(json!([]))]);
                    }
                    m.insert("res".into(), r);
                    let (mut rec, mut old, mut known) = (vec![], vec![], vec![]);
                    for f in &files {
                        let read = |p: &Path| std::fs::read(p).ok().map(|b| said(&String::from_utf8_lossy(&b)));
                        for (t, n) in NAMES {
                            let p = side(&d, f, n);
                            if let Some(v) = read(&p) { rec.push(json!([f, t, v])) }
                            known.push(p);
                        }
                        let stem = json!(arr(f)[..arr(f).len() - 1]);
                        if let Some(v) = read(&former(&d, f)) { if !old.iter().any(|o: &Value| o[0] == stem) { old.push(json!([stem, v])) } }
                        known.push(former(&d, f));
                        known.push(path(&d, f));
                    }
                    // nothing else came, went or changed
                    let mut kept = files.iter().all(|f| std::fs::read(path(&d, f)).ok() == now.get(&f.to_string()).cloned());
                    kept &= decoys.iter().all(|x| std::fs::read(d.join(x)).is_ok_and(|b| b == x.as_bytes()));
                    for dir in [d.clone(), d.join("d")] { for x in std::fs::read_dir(&dir).unwrap() { let p = x.unwrap().path(); kept &= p == d.join("d") || known.contains(&p) || decoys.iter().any(|x| d.join(x) == p); } }
                    m.insert("rec".into(), json!(rec));
                    m.insert("old".into(), json!(old));
                    m.insert("kept".into(), json!(kept));
                }
            }
            out.push(e);
        }
        std::fs::remove_dir_all(&d).unwrap();
        if sum.evaluated % 1500 == 9 { sum.sample(json!(out)) }
        w.put(&json!(out));
    }
    w.done();
    unsafe { libc::dup2(real_out, 1) };
    sum.extra.insert("runs".into(), json!(runs));
    sum.print();
}
