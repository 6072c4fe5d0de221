//! Scanning helpers: tables and behaviours of the Scanning specification against LexerState and the byte scanners.
#![feature(new_range_api)]
mod lang;
use lang::*;
use oak_core::lexer::{scan_comment, scan_identifier, scan_number, scan_string, scan_white_space, CommentConfig, LexerState, StringConfig, WhitespaceConfig};
use oak_core::source::*;
use std::collections::HashMap;
use vf_util::*;

fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }

/// Which characters stand for the letters of a text.
struct Reading { map: HashMap<&'static str, &'static str>, other: Vec<char>, runs: bool }
const COMMENT_MARKS: &[(&str, &str)] = &[("/", "*"), ("-", "["), ("(", "*"), ("«", "»"), ("é", "*"), ("{", "-"), ("😀", "😁"), ("/", "中"), ("#", "|")];
const QUOTES: &[(&str, &str, &str)] = &[("\"", "'", "\\"), ("'", "\"", "\\"), ("`", "\"", "^"), ("«", "»", "\\"), ("\"", "'", "§"), ("“", "”", "※"), ("\"", "»", "\\"), ("'", "\"", "é")];
fn reading(kind: &str, k: usize) -> Reading {
    let mut map = HashMap::new();
    let all: Vec<char> = "xé«»中😂\r \"'$«½¢ﬀ※z0\u{2028}".chars().collect();
    let other = match kind {
        "comments" => { let (a, b) = COMMENT_MARKS[k % COMMENT_MARKS.len()]; map.insert("/", a); map.insert("*", b); all }
        "strings" => { let (q, p, b) = QUOTES[k % QUOTES.len()]; map.insert("q", q); map.insert("p", p); map.insert("b", b); all }
        _ => { map.insert("/", "/"); map.insert("*", "*"); map.insert("q", "\""); map.insert("b", "\\"); Vec::new() }
    };
    map.insert("n", "\n");
    let used: String = map.values().copied().collect();
    Reading { other: other.into_iter().filter(|c| !used.contains(*c)).collect(), map, runs: kind != "mixed" }
}
const CLASSES: &[(&str, &str)] = &[
    ("a", "gzGZkLmY"), ("f", "afAFbCde"), ("9", "0918273645"), ("_", "_"), ("s", " "), ("t", "\t"), ("n", "\n"), ("r", "\r"),
    ("U", "\u{a0}\u{2003}\u{3000}\u{85}\u{2028}\u{b}\u{c}\u{1680}"), ("E", "éΩ中Жя한ß"), (".", ".`@[{/:^~-!\u{7f}\u{0}$"),
];
impl Reading {
    fn letter(&self, x: &str, rng: &mut Rng, rep: usize) -> String {
        if let Some(m) = self.map.get(x) { let n = if rep > 1 && self.other.is_empty() && x == "n" { rep } else { 1 }; return m.repeat(n); }
        let set: Vec<char> = if x == "x" { self.other.clone() } else { CLASSES.iter().find(|c| c.0 == x).expect("letter").1.chars().filter(|c| x != "." || self.runs || *c != '/').collect() };
        let n = if !self.runs { 1 } else if x == "x" { *rng.pick(&[1, 1, 1, 2, 33]) } else { rep };
        (0..n).map(|_| *rng.pick(&set)).collect()
    }
    fn text(&self, v: &Value, rng: &mut Rng, rep: usize) -> (String, Vec<usize>) {
        let (mut t, mut off) = (String::new(), vec![0]);
        for x in arr(v) {
            let r = if rep == 0 { *rng.pick(&[1, 2, 15, 31, 32, 33, 64, 70]) } else { rep };
            t += &self.letter(s(x), rng, r);
            off.push(t.len());
        }
        (t, off)
    }
    fn marks(&self, v: &Value) -> String { arr(v).iter().map(|x| self.map[s(x)]).collect() }
}

/// One helper, ready to be called.
#[derive(Clone)]
enum Helper {
    White(WhitespaceC), Ident, Line(&'static str), Block(&'static str, &'static str), Comment(&'static str, &'static str, &'static str, bool),
    Str(&'static [char], Option<char>), Skip(String), Until(u8), Chars(String), Bytes(String), Count(String), Find(String),
}
#[derive(Clone, Copy)]
struct WhitespaceC(bool);
fn helper(h: &Value, r: &Reading, cache: &mut HashMap<String, &'static str>) -> Helper {
    let mut st = |v: &Value| -> &'static str { let m = r.marks(v); *cache.entry(m.clone()).or_insert_with(|| leak(m)) };
    let class = || s(&h["class"]).to_string();
    match s(&h["op"]) {
        "white" => Helper::White(WhitespaceC(class() == "wide")),
        "ident" => Helper::Ident,
        "line" => Helper::Line(st(&h["line"])),
        "block" => Helper::Block(st(&h["start"]), st(&h["end"])),
        "comment" => Helper::Comment(st(&h["line"]), st(&h["start"]), st(&h["end"]), h["nested"].as_bool().unwrap()),
        "string" => {
            let q: Vec<char> = r.marks(&h["quotes"]).chars().collect();
            let e = if s(&h["escape"]).is_empty() { None } else { r.map[s(&h["escape"])].chars().next() };
            Helper::Str(Box::leak(q.into_boxed_slice()), e)
        }
        "skip" => Helper::Skip(class()), "until" => Helper::Until(if class() == "n" { b'\n' } else { b' ' }),
        "chars" => Helper::Chars(class()), "bytes" => Helper::Bytes(class()), "count" => Helper::Count(class()), "find" => Helper::Find(class()),
        o => panic!("helper {o}"),
    }
}
fn word(c: char) -> bool { c == '_' || c.is_ascii_alphanumeric() }
/// What a helper did: took a piece (where it ended) or declined.
fn call<S: Source + ?Sized>(h: &Helper, st: &mut LexerState<'_, S, Mini>, kind: T, text: &str, pad: usize) -> Result<Option<usize>, String> {
    let start = st.get_position();
    let ret = |b: bool, st: &LexerState<'_, S, Mini>| if b { Some(st.get_position()) } else { None };
    let ranged = |r: std::ops::Range<usize>, st: &LexerState<'_, S, Mini>| if r != (start..st.get_position()) { Err(format!("it returned {r:?}, from {start} to {}", st.get_position())) } else { Ok(Some(r.end)) };
    Ok(match h {
        Helper::White(w) => { let b = WhitespaceConfig { unicode_whitespace: w.0 }.scan(st, kind); ret(b, st) }
        Helper::Ident => { let b = st.scan_ascii_identifier(kind); ret(b, st) }
        Helper::Line(m) => { let there = scan_comment::starts_with_line_comment(text[start - pad..].as_bytes()); let b = st.scan_line_comment(kind, m); if *m == "//" && b != there { return Err("whether a line comment starts here".into()) } ret(b, st) }
        Helper::Block(a, z) => { let there = scan_comment::starts_with_block_comment(text[start - pad..].as_bytes()); let b = st.scan_block_comment(kind, a, z); if *a == "/*" && b != there { return Err("whether a block comment starts here".into()) } ret(b, st) }
        // the kind tells line and block comments apart
        Helper::Comment(l, a, z, n) => {
            let b = CommentConfig { line_marker: l, block_start: a, block_end: z, nested_blocks: *n }.scan(st, T(kind.0 + 1000), T(kind.0 + 2000));
            if b { let line = !l.is_empty() && text[start - pad..].starts_with(l); if st.tokens().last().map(|t| t.kind.0) != Some(kind.0 + if line { 1000 } else { 2000 }) { return Err("the comment has the other kind".into()); } }
            ret(b, st)
        }
        Helper::Str(q, e) => { let b = StringConfig { quotes: q, escape: *e }.scan(st, kind); ret(b, st) }
        Helper::Skip(c) => { let r = match c.as_str() { "space" => st.skip_ascii_whitespace(), "digit" => st.skip_ascii_digits(), _ => st.skip_ascii_ident_continue() }; ranged(r.into(), st)? }
        Helper::Until(b) => { let r = st.skip_until(*b); ranged(r.into(), st)? }
        Helper::Chars(c) => { let r = match c.as_str() { "wide" => st.take_while(char::is_whitespace), "digit" => st.take_while(|c| c.is_ascii_digit()), _ => st.take_while(|c| word(c) || (c.is_alphanumeric() && !c.is_ascii())) }; ranged(r.into(), st)? }
        Helper::Bytes(c) => { let r = if c == "hex" { st.take_while_byte(|b| b.is_ascii_hexdigit()) } else { st.take_while_byte(|b| b" \t\n\r".contains(&b)) }; ranged(r.into(), st)? }
        Helper::Count(c) => {
            let b = &text.as_bytes()[start - pad..];
            let (n, m) = match c.as_str() {
                "space" => { let n = SimdScanner::skip_ascii_whitespace(b); (n, n) }
                "digit" => (SimdScanner::skip_ascii_digits(b), scan_number::count_ascii_digit_prefix(b)),
                "hex" => (SimdScanner::skip_ascii_hexdigits(b), scan_number::count_ascii_hexdigit_prefix(b)),
                "word" => { let n = SimdScanner::skip_ascii_ident_continue(b); (n, b.iter().position(|x| !scan_identifier::is_ascii_ident_continue(*x)).unwrap_or(b.len())) }
                "blank" => (SimdScanner::skip_two_bytes(b, b' ', b'\t'), scan_white_space::count_space_tab_prefix(b)),
                _ => { let n = SimdScanner::skip_byte(b, b' '); (n, n) }
            };
            if n != m { return Err(format!("the two ways to count differ: {n} and {m}")); }
            Some(start + n)
        }
        Helper::Find(c) => {
            let b = &text.as_bytes()[start - pad..];
            let f = match c.as_str() {
                "n" => { let f = SimdScanner::find_byte(b, b'\n'); if SimdScanner::skip_until(b, b'\n') != f.unwrap_or(b.len()) { return Err("skip_until and find_byte differ".into()); } f }
                "t" => SimdScanner::find_byte(b, b'\t'),
                _ => { let f = SimdScanner::find_first_of_4(b, b' ', b'\t', b'\n', b'\r'); if scan_string::find_first_of_4(b, b'\r', b' ', b'\n', b'\t') != f { return Err("the order of the bytes looked for matters".into()); } f }
            };
            f.map(|n| start + n)
        }
    })
}

fn guarded<R>(name: &str, f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match guard(f) { Ok(Ok(r)) => Ok(r), Ok(Err(m)) => Err(format!("{name}: {m}")), Err(p) => Err(format!("{name}: panic: {p}")) }
}

/// Runs `f` over the text behind every kind of source: one piece, pieces cut anywhere, and behind a long prefix.
trait Body { fn go<S: Source + ?Sized>(&self, src: &S, pad: usize) -> Result<(), String>; }
fn sources<B: Body>(t: &str, rng: &mut Rng, every: bool, b: &B) -> Result<usize, String> {
    let mut cuts = vec![0, t.len()];
    for _ in 0..rng.below(5) { let mut c = rng.below(t.len() + 1); while !t.is_char_boundary(c) { c -= 1 } cuts.push(c) }
    cuts.sort(); cuts.dedup();
    let mut chunked = ChunkedBuffer::new();
    for w in cuts.windows(2) { chunked.push_str(&t[w[0]..w[1]]) }
    guarded("str", || b.go(t, 0))?;
    guarded("ChunkedBuffer", || b.go(&chunked, 0)).map_err(|m| format!("{m} (pieces cut at {cuts:?})"))?;
    if !every { return Ok(2) }
    let mut single = ChunkedBuffer::new();
    let mut it = t.char_indices().map(|(i, _)| i).chain([t.len()]).collect::<Vec<_>>(); it.dedup();
    for w in it.windows(2) { single.push_str(&t[w[0]..w[1]]) }
    guarded("ChunkedBuffer (characters)", || b.go(&single, 0))?;
    let st = SourceText::new(t.to_string());
    guarded("SourceText", || b.go(&st, 0))?;
    let pad = 4096 - rng.below(t.len().min(4000) + 1);
    let rope = RopeBuffer::new(&format!("{}{}", "p".repeat(pad), t));
    guarded("RopeBuffer (long)", || b.go(&rope, pad))?;
    let dynamic: &dyn Source = &rope;
    guarded("dyn Source (long)", || b.go(dynamic, pad))?;
    Ok(6)
}

struct TableBody<'a> { t: &'a str, off: &'a [usize], hs: &'a [Helper], res: &'a Value, seams: bool }
impl Body for TableBody<'_> {
    fn go<S: Source + ?Sized>(&self, src: &S, pad: usize) -> Result<(), String> {
        for (k, h) in self.hs.iter().enumerate() {
            for p in 0..self.off.len() {
                let mut st = LexerState::<S, Mini>::new(src);
                st.set_position(pad + self.off[p]);
                let kind = T(5 + k as u32);
                let got = call(h, &mut st, kind, self.t, pad).map_err(|m| format!("helper {} at {p}: {m}", k + 1))?;
                let w = i(&self.res[k][p]);
                let want = if w < 0 { None } else { Some(pad + self.off[w as usize]) };
                if got != want { return Err(format!("helper {} at letter {p} (byte {}): took {got:?}, expected {want:?}", k + 1, pad + self.off[p])); }
                let moved = if matches!(h, Helper::Count(_) | Helper::Find(_)) { None } else { want };
                if st.get_position() != moved.unwrap_or(pad + self.off[p]) { return Err(format!("helper {} at letter {p}: the position is {}", k + 1, st.get_position())); }
                let makes = matches!(h, Helper::White(_) | Helper::Ident | Helper::Line(_) | Helper::Block(..) | Helper::Comment(..) | Helper::Str(..));
                match (st.tokens(), makes.then_some(want).flatten()) {
                    ([], None) => {}
                    ([x], Some(e)) if x.span.start == pad + self.off[p] && x.span.end == e && x.kind.0 % 1000 == kind.0 => {}
                    (x, e) => return Err(format!("helper {} at letter {p}: tokens {x:?}, expected an end {e:?}", k + 1)),
                }
                if self.seams && p > 3 { break }
            }
        }
        Ok(())
    }
}

fn tables(path: &str, helpers: &str, kind: &str, seed: u64) {
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed ^ 31);
    let hv: Value = serde_json::from_str(&std::fs::read_to_string(helpers).unwrap()).unwrap();
    let mut cache = HashMap::new();
    let mut ready: HashMap<usize, (Reading, Vec<Helper>)> = HashMap::new();
    let mut runs = 0;
    for r in read_lines(path) {
        sum.evaluated += 1;
        let n = sum.evaluated;
        let passes = if kind == "words" { 2 } else { 3 };
        for pass in 0..passes {
            let v = rng.below(COMMENT_MARKS.len() * QUOTES.len());
            let v = if kind == "words" { 0 } else if pass == 0 { 0 } else if kind == "comments" { v % COMMENT_MARKS.len() } else { v % QUOTES.len() };
            let (rd, hs) = ready.entry(v).or_insert_with(|| { let rd = reading(kind, v); let hs = arr(&hv).iter().map(|h| helper(h, &rd, &mut cache)).collect(); (rd, hs) });
            let (t, off) = rd.text(&r["text"], &mut rng, if pass == 0 { 1 } else { 0 });
            let body = TableBody { t: &t, off: &off, hs, res: &r["res"], seams: false };
            match sources(&t, &mut rng, n % 6 == 0, &body) {
                Ok(k) => runs += k * hs.len() * off.len(),
                Err(m) => sum.bad(json!({"what": m, "text": t, "letters": r["text"], "helpers": kind})),
            }
            if n % 3000 == 17 && pass == 1 { sum.sample(json!({"text": t, "letters": r["text"], "ends": r["res"]})) }
        }
    }
    sum.extra.insert("scans".into(), json!(runs));
    sum.print();
}

struct RunBody<'a> { off: &'a [usize], t: &'a str, hs: &'a [Helper], hist: &'a [Value], tokens: &'a Value }
impl Body for RunBody<'_> {
    fn go<S: Source + ?Sized>(&self, src: &S, pad: usize) -> Result<(), String> {
        let mut st = LexerState::<S, Mini>::new(src);
        st.set_position(pad + self.off[u(&self.hist[0]["pos"])]);
        for (n, e) in self.hist[1..].iter().enumerate() {
            let here = st.get_position();
            let what = |m: &str| format!("step {} ({} {}): {m}", n + 1, e["op"], e["h"]);
            match s(&e["op"]) {
                "use" => {
                    let k = u(&e["h"]);
                    let got = call(&self.hs[k - 1], &mut st, T(4 + k as u32), self.t, pad).map_err(|m| what(&m))?;
                    if got.is_some() != e["ok"].as_bool().unwrap() { return Err(what(&format!("took {got:?}"))); }
                }
                "bump" => { let c = self.t[here - pad..].chars().next(); if st.peek() != c || st.current() != c || st.bump() != c { return Err(what("another character")); } }
                "with" => {
                    let to = pad + self.off[u(&e["pos"])];
                    if st.advance_with(oak_core::lexer::Token { kind: T(103), span: (here..to).into() }) != to { return Err(what("another place")); }
                }
                "eat" => {
                    let to = pad + self.off[u(&e["pos"])];
                    let c = &self.t[here - pad..to - pad];
                    for (no, _) in [(format!("{c}\u{1}"), 0), ("\u{2}".to_string(), 0)] { if st.starts_with(&no) || st.consume_if_starts_with(&no) || st.get_position() != here { return Err(what(&format!("{no:?} is not there"))); } }
                    if !st.starts_with("") || !st.starts_with(c) { return Err(what("it is there")); }
                    if c.len() == 1 && n % 2 == 0 { if st.advance_byte() != Some(c.as_bytes()[0]) { return Err(what("another byte")); } }
                    else if n % 3 == 0 { st.advance(c.len()) }
                    else if !st.consume_if_starts_with(c) { return Err(what("it is there and not taken")); }
                }
                "place" => { let to = pad + self.off[u(&e["h"])]; if st.set_position(to) != here { return Err(what("another place before")); } }
                "stuck" => st.advance_if_dead_lock(here),
                "moved" => st.advance_if_dead_lock(here + 1),
                "eof" => st.add_eof(),
                o => panic!("step {o}"),
            }
            let want = pad + self.off[u(&e["pos"])];
            if st.get_position() != want { return Err(what(&format!("the position is {}, expected {want}", st.get_position()))); }
            let rest = &self.t[want - pad..];
            if st.not_at_end() == rest.is_empty() || st.fully_reused() != rest.is_empty() { return Err(what("not_at_end")); }
            if st.peek() != rest.chars().next() || st.peek_next() != rest.chars().nth(1) || st.peek_byte() != rest.bytes().next() { return Err(what("peeking")); }
            if rest.char_indices().take(4).any(|(k, c)| st.peek_next_n(k) != Some(c)) || st.peek_next_n(rest.len()).is_some() { return Err(what("peeking further")); }
            let piece = st.rest().to_string();
            if !rest.starts_with(&piece) || piece.is_empty() != rest.is_empty() || st.rest_bytes() != piece.as_bytes() { return Err(what(&format!("the rest of the piece is {piece:?}"))); }
            if st.get_length() != pad + self.t.len() || st.get_char_at(want) != rest.chars().next() || st.get_text_from(want) != rest { return Err(what("the text behind")); }
            let a = pad + self.off[n % self.off.len()].min(want - pad);
            if st.get_text_in((a..want).into()) != self.t[a - pad..want - pad] || st.source().length() != st.get_length() { return Err(what("the text before")); }
            if st.tokens().len() != st.get_tokens().len() { return Err(what("the tokens so far")); }
        }
        let got: Vec<(u32, usize, usize)> = st.finish(Ok(())).result.map_err(|_| "no result")?.iter().map(|x| (if x.kind == EOF { 0 } else { x.kind.0 % 1000 - 4 }, x.span.start, x.span.end)).collect();
        let want: Vec<(u32, usize, usize)> = arr(self.tokens).iter().map(|x| (u(&x[0]) as u32, pad + self.off[u(&x[1])], pad + self.off[u(&x[2])])).collect();
        if got != want { return Err(format!("tokens {got:?}, expected {want:?}")); }
        Ok(())
    }
}
fn runs(path: &str, helpers: &str, kind: &str, seed: u64) {
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed ^ 37);
    let hv: Value = serde_json::from_str(&std::fs::read_to_string(helpers).unwrap()).unwrap();
    let mut cache = HashMap::new();
    let rd = reading(kind, 0);
    let hs: Vec<Helper> = arr(&hv).iter().map(|h| helper(h, &rd, &mut cache)).collect();
    let mut n = 0;
    for r in read_lines(path) {
        sum.evaluated += 1;
        let (t, off) = rd.text(&r["text"], &mut rng, 1);
        let body = RunBody { off: &off, t: &t, hs: &hs, hist: arr(&r["hist"]), tokens: &r["tokens"] };
        match sources(&t, &mut rng, sum.evaluated % 5 == 0, &body) {
            Ok(k) => n += k,
            Err(m) => sum.bad(json!({"what": m, "text": t, "letters": r["text"], "steps": r["hist"]})),
        }
    }
    sum.extra.insert("runs".into(), json!(n));
    sum.print();
}

fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "tables" => tables(&arg(2), &arg(3), &arg(4), argn(5)),
        "runs" => runs(&arg(2), &arg(3), &arg(4), argn(5)),
        m => panic!("mode {m}"),
    }
}
