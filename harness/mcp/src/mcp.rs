//! Scripts of lines delivered piece by piece to the real tool server: what it answers and asks, and when.
#![feature(new_range_api)]
#[path = "../../core/src/lang.rs"]
mod lang;
use core::range::Range;
use lang::Mini;
use oak_lsp::{service::LanguageService, types::*, workspace::WorkspaceManager};
use oak_mcp::{McpServer, SemanticSearch};
use oak_vfs::{MemoryVfs, Vfs};
use std::{
    cell::RefCell,
    collections::VecDeque,
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};
use tokio::io::{AsyncRead, AsyncWrite, BufReader, ReadBuf};
use vf_util::*;

type Log = Arc<Mutex<Vec<Value>>>;
/// Lets every other future wait once, as a service that does real work would.
struct Wait(bool);
impl Future for Wait {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; c.waker().wake_by_ref(); Poll::Pending } }
}
struct Service { vfs: MemoryVfs, ws: WorkspaceManager, log: Log }
impl Service { fn note(&self, v: Value) { self.log.lock().unwrap().push(v) } }
impl LanguageService for Service {
    type Lang = Mini;
    type Vfs = MemoryVfs;
    fn vfs(&self) -> &MemoryVfs { &self.vfs }
    fn workspace(&self) -> &WorkspaceManager { &self.ws }
    fn hover(&self, uri: &str, range: Range<usize>) -> impl Future<Output = Option<Hover>> + Send + '_ {
        let contents = format!("hover {uri} {}..{} \u{e9}\"\n", range.start, range.end);
        self.note(json!(["hover", uri, range.start]));
        async move { Wait(range.start % 2 == 0).await; Some(Hover { contents, range: None }) }
    }
    fn document_symbols<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<StructureItem>> + Send + 'a { self.note(json!(["symbols", uri])); async { Wait(false).await; vec![] } }
    fn definition<'a>(&'a self, uri: &'a str, range: Range<usize>) -> impl Future<Output = Vec<LocationRange>> + Send + 'a { self.note(json!(["definition", uri, range.start])); async { vec![] } }
    fn references<'a>(&'a self, uri: &'a str, range: Range<usize>) -> impl Future<Output = Vec<LocationRange>> + Send + 'a { self.note(json!(["references", uri, range.start])); async { vec![] } }
    fn diagnostics<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<Diagnostic>> + Send + 'a { self.note(json!(["diagnostics", uri])); async { vec![] } }
    fn completion<'a>(&'a self, uri: &'a str, offset: usize) -> impl Future<Output = Vec<CompletionItem>> + Send + 'a { self.note(json!(["completion", uri, offset])); async { vec![] } }
}
struct Searcher { log: Log, works: bool }
impl SemanticSearch for Searcher {
    async fn search(&self, query: &str, limit: usize) -> Result<Vec<String>, oak_core::OakError> {
        self.log.lock().unwrap().push(json!(["search", query, limit]));
        Wait(false).await;
        if self.works { Ok((0..3).map(|k| format!("{query} {limit} {k}\n")).collect()) } else { Err(oak_core::OakError::semantic_error("the index is gone")) }
    }
}
#[derive(Default)]
struct Pipe { input: VecDeque<u8>, closed: bool, starved: bool, written: Vec<u8>, flushed: usize, rng: u64 }
impl Pipe { fn roll(&mut self, n: u64) -> u64 { self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.rng >> 33) % n } }
#[derive(Clone)]
struct End(Rc<RefCell<Pipe>>);
impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let mut p = self.0.borrow_mut();
        if p.input.is_empty() { if p.closed { return Poll::Ready(Ok(())) } p.starved = true; return Poll::Pending }
        let n = (1 + p.roll(40) as usize).min(p.input.len()).min(buf.remaining());
        for _ in 0..n { let b = p.input.pop_front().unwrap(); buf.put_slice(&[b]) }
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut p = self.0.borrow_mut();
        if p.roll(4) == 0 { return Poll::Pending }
        let n = (1 + p.roll(300) as usize).min(b.len());
        p.written.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { let mut p = self.0.borrow_mut(); if p.roll(4) == 0 { return Poll::Pending } p.flushed = p.written.len(); Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<std::io::Result<()>> { self.poll_flush(c) }
}

fn id(i: usize, v: usize) -> Value {
    match v % 6 { 0 => json!(i), 1 => json!(format!("req \u{e9}\"{i}\\\n")), 2 => json!(-(i as i64)), 3 => json!(i as f64 + 0.5), 4 => json!(u64::MAX - i as u64), _ => json!(format!("{i}")) }
}
fn uri(i: usize) -> String { format!("file:///l{i}/\u{e9} {i}.x") }
fn content(i: usize) -> String { format!("text {i}\r\n\u{1f600}\"") }
/// One line of the script as bytes without its line break, and the call's arguments as the service must see them.
fn line(l: &Value, i: usize, rng: &mut Rng) -> (Vec<u8>, Value) {
    let x = id(i, i + rng.0 as usize % 3);
    let mut seen = json!({"id": x});
    let pick = |rng: &mut Rng, xs: &[String]| xs[rng.below(xs.len())].clone().into_bytes();
    let out = match s(&l["k"]) {
        "initialize" => pick(rng, &[json!({"jsonrpc": "2.0", "id": x, "method": "initialize", "params": {"protocolVersion": "2024-11-05", "capabilities": {}}}).to_string(), json!({"method": "initialize", "id": x, "jsonrpc": "2.0", "extra": [1, {}]}).to_string()]),
        "list" => pick(rng, &[json!({"jsonrpc": "2.0", "id": x, "method": "tools/list"}).to_string(), json!({"jsonrpc": "2.0", "id": x, "method": "tools/list", "params": null}).to_string(), json!({"jsonrpc": "2.0", "id": x, "method": "tools/list", "params": {}}).to_string()]),
        "unknown" => { let m = ["resources/list", "tools", "Initialize", "", "tools/call ", "notifications/initialized"][rng.below(6)]; json!({"jsonrpc": "2.0", "id": x, "method": m, "params": {"name": "hover"}}).to_string().into_bytes() }
        "nomethod" => pick(rng, &[json!({"jsonrpc": "2.0", "id": x}).to_string(), json!({"jsonrpc": "2.0", "id": x, "method": 5}).to_string(), json!({"jsonrpc": "2.0", "id": x, "params": {"a": 1}}).to_string(), json!({"jsonrpc": "2.0", "id": x, "method": null}).to_string()]),
        "noise" => pick(rng, &["{\"jsonrpc\":\"2.0\"}".into(), "\"initialize\"".into(), "{ }".into(), "[ [] ]".into(), "null".into(), "{\"params\":{\"id\":7}}".into()]),
        "broken" => {
            if rng.chance(1, 3) { let mut b = json!({"jsonrpc": "2.0", "id": x, "method": "initialize"}).to_string().into_bytes(); b.extend([b' ', 0xff, 0xfe]); b }
            else { pick(rng, &["{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"initialize\"".into(), "hello world".into(), "{'a'}".into(), "{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"initialize\"}}".into(), "\u{e9}{}".into()]) }
        }
        "notify" => pick(rng, &[json!({"jsonrpc": "2.0", "method": "notifications/initialized"}).to_string(), json!({"jsonrpc": "2.0", "method": "initialize", "params": {}}).to_string(), json!({"jsonrpc": "2.0", "method": "tools/call", "params": {"name": "hover", "arguments": {"uri": "file:///n", "offset": 1}}}).to_string(), json!({"jsonrpc": "2.0", "method": "nothing", "params": null}).to_string()]),
        "response" => pick(rng, &[json!({"jsonrpc": "2.0", "id": x, "result": {}}).to_string(), json!({"jsonrpc": "2.0", "id": x, "error": {"code": 1, "message": "m"}}).to_string()]),
        "blank" => pick(rng, &["  ".into(), "\t ".into(), " \r".into()]),
        "call" => {
            let b = |k: &str| l[k] == json!(true);
            let offset = if rng.chance(1, 4) { 0 } else { i * 7 + rng.below(3) };
            let mut a = json!({});
            let wrong = rng.chance(1, 2);
            if b("uri") { a["uri"] = json!(uri(i)) } else if wrong { a["uri"] = json!(5) }
            if b("offset") { a["offset"] = json!(offset) } else if wrong { a["offset"] = [json!(-1), json!("3"), json!(1.5), json!(null)][rng.below(4)].clone() }
            if b("content") { a["content"] = json!(content(i)) } else if wrong { a["content"] = json!(["x"]) }
            if b("query") { a["query"] = json!(format!("query {i}")) } else if wrong { a["query"] = json!({}) }
            let limit = if rng.chance(1, 2) { 5 } else { let n = rng.below(9); a["limit"] = json!(n); n };
            seen["offset"] = json!(offset);
            seen["limit"] = json!(limit);
            let mut p = json!({"name": l["tool"], "arguments": a});
            if s(&l["tool"]).is_empty() { p.as_object_mut().unwrap().remove("name"); if wrong { p["name"] = json!(3) } }
            if a == json!({}) && wrong { p.as_object_mut().unwrap().remove("arguments"); }
            if p == json!({}) { json!({"jsonrpc": "2.0", "id": x, "method": "tools/call"}) } else { json!({"jsonrpc": "2.0", "id": x, "method": "tools/call", "params": p}) }.to_string().into_bytes()
        }
        k => panic!("line {k}"),
    };
    (out, seen)
}
fn answer(r: &Value, want: &Value, seen: &[Value]) -> Result<(), String> {
    let i = u(&want["id"]);
    let o = r.as_object().ok_or("not an object")?;
    if r["jsonrpc"] != "2.0" { return Err("no protocol version".into()) }
    if !o.contains_key("id") { return Err("no identifier".into()) }
    let x = if i == 0 { Value::Null } else { seen[i - 1]["id"].clone() };
    if r["id"] != x { return Err(format!("identifier {}, expected {x}", r["id"])) }
    if o.contains_key("result") == o.contains_key("error") { return Err("not exactly one of result and error".into()) }
    let code = || -> Result<i64, String> {
        if r["error"]["message"].as_str().is_none_or(|m| m.is_empty()) { return Err("no error message".into()) }
        r["error"]["code"].as_i64().ok_or("no error code".into())
    };
    let is_code = |c: i64| { let got = code()?; if got == c { Ok(()) } else { Err(format!("error code {got}, expected {c}")) } };
    let res = &r["result"];
    match s(&want["is"]) {
        "welcome" => if res["protocolVersion"].is_string() && res["capabilities"]["tools"].is_object() && res["serverInfo"]["name"].is_string() { Ok(()) } else { Err("no welcome".into()) },
        "tools" => {
            let mut names: Vec<&str> = res["tools"].as_array().ok_or("no tools")?.iter().filter(|t| t["inputSchema"]["type"] == "object").filter_map(|t| t["name"].as_str()).collect();
            names.sort();
            let mut all = TOOLS.to_vec();
            all.sort();
            if names == all { Ok(()) } else { Err(format!("tools {names:?}")) }
        }
        "no method" => is_code(-32601),
        "invalid" => is_code(-32600),
        "unreadable" => is_code(-32700),
        "error" => code().map(|_| ()),
        "content" => {
            let c = res["content"].as_array().ok_or("no content")?;
            if c.len() != 1 || c[0]["type"] != "text" || res["isError"] == json!(true) { return Err("not one text".into()) }
            let text: Value = serde_json::from_str(c[0]["text"].as_str().ok_or("no text")?).map_err(|e| e.to_string())?;
            let sn = &seen[i - 1];
            let want = match s(&want["call"]["tool"]) {
                "hover" => json!(format!("hover {} {}..{} \u{e9}\"\n", uri(i), sn["offset"], sn["offset"])),
                "search" | "semantic_search" => json!((0..3).map(|k| format!("query {i} {} {k}\n", sn["limit"])).collect::<Vec<_>>()),
                _ => return Ok(()),
            };
            if text == want { Ok(()) } else { Err(format!("content {text}, expected {want}")) }
        }
        x => panic!("answer {x}"),
    }
}
const TOOLS: [&str; 9] = ["hover", "symbols", "definition", "references", "diagnostics", "completion", "set_file_content", "search", "semantic_search"];
fn asked(c: &Value, seen: &[Value]) -> Option<Value> {
    let i = u(&c["line"]);
    let sn = &seen[i - 1];
    Some(match s(&c["call"]["tool"]) {
        t @ ("hover" | "definition" | "references" | "completion") => json!([t, uri(i), sn["offset"]]),
        t @ ("symbols" | "diagnostics") => json!([t, uri(i)]),
        "search" | "semantic_search" => json!(["search", format!("query {i}"), sn["limit"]]),
        _ => return None,
    })
}
fn serve<E: SemanticSearch + 'static>(server: McpServer<Service, E>, log: Log, service: Arc<Service>, h: &Value, rng: &mut Rng) -> Result<(), String> {
    let (mut pieces, mut seen) = (vec![], vec![]);
    for (i, l) in arr(&h["script"]).iter().enumerate() {
        let (b, sn) = line(l, i + 1, rng);
        let mut k = 1 + rng.below(b.len() - 1);
        while b.len() > 2 && std::str::from_utf8(&b[..k]).is_ok_and(|t| serde_json::from_str::<Value>(t).is_ok()) { k -= 1 }
        pieces.push(b[..k].to_vec());
        pieces.push(b[k..].to_vec());
        pieces.push(if rng.chance(1, 4) { b"\r\n".to_vec() } else { b"\n".to_vec() });
        seen.push(sn);
    }
    let end = End(Rc::new(RefCell::new(Pipe { rng: rng.next(), ..Default::default() })));
    let mut fut = Box::pin(server.run(BufReader::with_capacity([1, 3, 64, 8192][rng.below(4)], end.clone()), end.clone()));
    let mut cx = Context::from_waker(Waker::noop());
    let mut next = 0;
    let mut done = false;
    for (k, op) in arr(&h["ops"]).iter().enumerate() {
        let fail = |m: String| Err(format!("after step {}: {m}", k + 1));
        match s(&op["op"]) {
            "feed" => for _ in 0..u(&op["n"]) { end.0.borrow_mut().input.extend(&pieces[next]); next += 1 },
            _ => end.0.borrow_mut().closed = true,
        }
        end.0.borrow_mut().starved = false;
        let mut polls = 0;
        while !done && !end.0.borrow().starved {
            polls += 1;
            if polls > 200_000 { return fail("the server neither waits nor answers".into()) }
            match fut.as_mut().poll(&mut cx) {
                Poll::Pending => {}
                Poll::Ready(r) => { done = true; if let Err(e) = r { return fail(format!("the server stopped: {e}")) } if s(&op["op"]) != "close" { return fail("the server stopped serving".into()) } }
            }
        }
        if s(&op["op"]) == "close" && !done { return fail("the server goes on after the end of its input".into()) }
        let p = end.0.borrow();
        if p.flushed != p.written.len() { return fail("the server waits with unsent output".into()) }
        let text = String::from_utf8(p.written.clone()).map_err(|e| e.to_string())?;
        if !text.is_empty() && !text.ends_with('\n') { return fail("an answer without a line break".into()) }
        let got: Vec<&str> = text.split_terminator('\n').collect();
        let want = arr(&op["out"]);
        if got.len() != want.len() { return fail(format!("{} answers, expected {}: {:?}", got.len(), want.len(), got)) }
        for (g, w) in got.iter().zip(want) {
            let v: Value = match serde_json::from_str(g) { Ok(v) => v, Err(e) => return fail(format!("answer {g:?}: {e}")) };
            if let Err(e) = answer(&v, w, &seen) { return fail(format!("{e}; answer {g}, expected {w}")) }
        }
        let want: Vec<Value> = arr(&op["calls"]).iter().filter_map(|c| asked(c, &seen)).collect();
        let got = log.lock().unwrap().clone();
        if got != want { return fail(format!("the service was asked {got:?}, expected {want:?}")) }
        for c in arr(&op["calls"]) {
            let i = u(&c["line"]);
            if c["call"]["tool"] == "set_file_content" && service.vfs.get_source(&uri(i)).map(|s| s.text().to_string()) != Some(content(i)) { return fail("the file was not written".into()) }
        }
    }
    Ok(())
}
fn main() {
    quiet_panics();
    let mut sum = Summary::new();
    let mut rng = Rng::new(argn(3));
    let mut answers = 0;
    for (k, h) in read_lines(&arg(2)).enumerate() {
        sum.evaluated += 1;
        let log: Log = Default::default();
        let service = Arc::new(Service { vfs: MemoryVfs::new(), ws: WorkspaceManager::new(), log: log.clone() });
        let r = guard(|| {
            let works = s(&h["searching"]) == "works";
            let none = McpServer { service: service.clone(), searcher: None::<Arc<oak_mcp::NoSemanticSearch>> };
            if s(&h["searching"]) == "absent" { serve(none, log.clone(), service.clone(), &h, &mut rng) } else { serve(none.with_searcher(Searcher { log: log.clone(), works }), log.clone(), service.clone(), &h, &mut rng) }
        });
        answers += arr(&h["ops"]).last().map_or(0, |o| arr(&o["out"]).len());
        if let Err(e) = r.and_then(|r| r) { sum.bad(json!({"what": e, "script": h["script"], "ops": arr(&h["ops"]).iter().map(|o| json!([o["op"], o["n"]])).collect::<Vec<_>>()})) }
        if k < 2 { sum.sample(h) }
    }
    sum.extra.insert("answers".into(), json!(answers));
    sum.print();
}
