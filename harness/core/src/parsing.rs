//! Parser state: checkpoints, backtracking, scopes; operator precedence. Replay of specification behaviours.
#![feature(new_range_api)]
mod lang;
use lang::*;
use oak_core::errors::{OakDiagnostics, OakError, OakErrorKind};
use oak_core::lexer::Token;
use oak_core::memory::arena::SyntaxArena;
use oak_core::parser::{Associativity, OperatorInfo, ParserState, Pratt, PrattParser, binary, postfix, unary};
use oak_core::source::{Source, SourceText};
use oak_core::tree::{GreenNode, GreenTree};
use vf_util::*;

type St<'a> = ParserState<'a, Mini, SourceText>;

/// Token i (1-based) of the specification is i bytes long, so that lengths identify tokens; end-of-file tokens are empty.
fn tokens(kinds: &[i64]) -> (String, Vec<Token<T>>) {
    let (mut text, mut v) = (String::new(), vec![]);
    for (i, &k) in kinds.iter().enumerate() {
        let a = text.len();
        if k != 0 { text += &char::from(b'a' + (i % 26) as u8).to_string().repeat(i + 1); }
        v.push(Token { kind: T(k as u32), span: (a..text.len()).into() });
    }
    (text, v)
}
fn flat(t: &GreenTree<Mini>, kinds: &[i64], out: &mut Vec<i64>) -> Result<(), String> {
    match t {
        GreenTree::Leaf(l) => {
            let i = if l.length() == 0 { kinds.iter().position(|&k| k == 0).map(|p| p + 1).unwrap_or(0) } else { l.length() as usize };
            if i == 0 || i > kinds.len() || kinds[i - 1] != l.kind().0 as i64 { return Err(format!("leaf kind {} length {} is no token", l.kind().0, l.length())); }
            out.push(i as i64)
        }
        GreenTree::Node(n) => {
            out.push(-(n.kind().0 as i64));
            for c in n.children() { flat(c, kinds, out)?; }
            out.push(0);
            if n.text_len() != n.children().iter().map(|c| c.len()).sum::<u32>() { return Err("node length is not the sum of its children".into()); }
        }
    }
    Ok(())
}
/// The same with some tokens empty: white space, every other token, comments, or none.
fn sized(kinds: &[i64], v: usize) -> (String, Vec<Token<T>>, Vec<usize>) {
    let (mut text, mut toks, mut lens) = (String::new(), vec![], vec![]);
    for (i, &k) in kinds.iter().enumerate() {
        let a = text.len();
        if !(k == 0 || v == 1 && k == 1 || v == 2 && i % 2 == 1 || v == 3 && (k == 2 || k == 4)) { text += &char::from(b'a' + (i % 26) as u8).to_string().repeat(i + 1); }
        toks.push(Token { kind: T(k as u32), span: (a..text.len()).into() });
        lens.push(text.len() - a);
    }
    (text, toks, lens)
}
/// A tree written with the kinds and lengths of its tokens.
fn spell(t: &GreenTree<Mini>, out: &mut Vec<(i64, i64)>) -> Result<(), String> {
    match t {
        GreenTree::Leaf(l) => out.push((l.kind().0 as i64, l.length() as i64)),
        GreenTree::Node(n) => {
            out.push((-(n.kind().0 as i64), 0));
            for c in n.children() { spell(c, out)?; }
            out.push((0, -1));
            if n.text_len() != n.children().iter().map(|c| c.len()).sum::<u32>() { return Err("node length is not the sum of its children".into()); }
        }
    }
    Ok(())
}
fn k(x: i64) -> Option<T> { if x < 0 { None } else { Some(T(x as u32)) } }

struct Run<'h> { ops: &'h [Value], at: usize, kinds: &'h [i64], lens: &'h [usize], fail: Option<String>, flavour: usize, errors: Vec<OakError> }
impl<'h> Run<'h> {
    fn obs(&mut self, st: &St, o: &Value) {
        if self.fail.is_some() { return; }
        let n = self.at;
        let mut bad = |m: String| { if self.fail.is_none() { self.fail = Some(format!("after step {n}: {m}")) } };
        let pos = u(&o["pos"]);
        // past the end every position is the end
        if st.tokens.index() + 1 != pos { bad(format!("token position {}, expected {}", st.tokens.index() + 1, pos)); }
        if st.sink.checkpoint() != u(&o["sp"]) { bad(format!("{} pending pieces, expected {}", st.sink.checkpoint(), o["sp"])); }
        if st.peek_kind() != k(i(&o["kind"])) { bad(format!("peek_kind {:?}, expected {}", st.peek_kind(), o["kind"])); }
        for d in 0..3 {
            if st.peek_kind_at(d) != k(i(&o["ahead"][d])) { bad(format!("peek_kind_at({d}) {:?}, expected {}", st.peek_kind_at(d), o["ahead"][d])); }
            if st.peek_non_trivia_kind_at(d) != k(i(&o["far"][d])) { bad(format!("peek_non_trivia_kind_at({d}) {:?}, expected {}", st.peek_non_trivia_kind_at(d), o["far"][d])); }
        }
        let n = self.kinds.len();
        let place = |t: Option<&Token<T>>| t.map(|t| (t.span.start, t.span.end));
        let want = |j: usize| if j < n { let a = self.lens[..j].iter().sum::<usize>(); Some((a, a + self.lens[j])) } else { None };
        if place(st.current()) != want(pos - 1) { bad(format!("current token at {:?}, expected {:?}", place(st.current()), want(pos - 1))); }
        for d in 0..3 {
            if place(st.peek_at(d)) != want(pos - 1 + d) { bad(format!("peek_at({d}) at {:?}, expected {:?}", place(st.peek_at(d)), want(pos - 1 + d))); }
            let far = (pos - 1..n).filter(|&j| self.kinds[j] != 1 && self.kinds[j] != 2).nth(d);
            if place(st.peek_non_trivia_at(d)) != far.and_then(|j| want(j)) { bad(format!("peek_non_trivia_at({d}) at {:?}, expected token {far:?}", place(st.peek_non_trivia_at(d)))); }
        }
        let len = |m: usize| -> usize { self.lens[..m.min(self.lens.len())].iter().sum() };
        if st.current_offset() != len(pos - 1) { bad(format!("current_offset {}, expected {}", st.current_offset(), len(pos - 1))); }
        if st.not_at_end() != (pos <= self.kinds.len()) { bad("not_at_end".into()); }
        for q in [0, 3, 4] { if st.at(T(q)) != (i(&o["kind"]) == q as i64) || st.not_at(T(q)) == st.at(T(q)) { bad(format!("at({q})")); } }
        if pos <= self.kinds.len() { let (a, b) = (len(pos - 1), len(pos)); if st.peek_text().as_deref() != Some(&st.source.text()[a..b]) { bad("peek_text".into()); } }
        else if st.peek_text().is_some() { bad("peek_text past the end".into()); }
    }
    /// Runs operations until the end of the list or the end of the current scope; returns how the scope ends.
    fn run<'a>(&mut self, st: &mut St<'a>, marks: &mut Vec<(usize, usize)>, nodes: &mut Vec<(usize, &'a GreenNode<'a, Mini>)>) -> String {
        while self.at < self.ops.len() && self.fail.is_none() {
            let o = &self.ops[self.at];
            self.at += 1;
            let (op, a, b) = (s(&o["op"]), &o["a"], &o["b"]);
            let want = o["res"].as_bool().unwrap();
            match op {
                "close" => { self.at -= 1; return s(a).into(); }
                "bump" => st.bump(),
                "advance" => st.advance(),
                "skip" => st.skip_trivia(),
                "until" => st.advance_until(T(u(a) as u32)),
                "untilany" => st.advance_until_any(&[T(3), T(0)]),
                "eat" => { let r = st.eat(T(u(a) as u32)); if r != want { self.fail = Some(format!("step {}: eat({a}) = {r}", self.at)); } }
                "expect" => {
                    let (off, errs) = (st.current_offset(), st.errors.len());
                    match st.expect(T(u(a) as u32)) {
                        Ok(()) => if !want || st.errors.len() != errs { self.fail = Some(format!("step {}: expect({a}) succeeded", self.at)); },
                        Err(e) => {
                            let there = |e: &OakError| matches!(e.kind(), OakErrorKind::ExpectedToken { offset, .. } if *offset == off);
                            if want || st.errors.len() != errs + 1 || !there(&e) || !there(st.errors.last().unwrap()) { self.fail = Some(format!("step {}: expect({a}) failed with {e:?}, recorded {:?}", self.at, st.errors)); }
                            self.errors.push(e);
                        }
                    }
                }
                "record" => {
                    // a is the number of the token the error is about; past the last one it is about the end of the text
                    let off: usize = self.lens[..u(a) - 1].iter().sum();
                    let id = st.source.source_id();
                    self.flavour += 1;
                    let before = st.errors.len();
                    let (got, want) = if want {
                        match self.flavour % 5 {
                            0 => { st.record_unexpected_token("t"); (None, OakError::unexpected_token("t", off, id)) }
                            1 => { st.record_expected("e"); (None, OakError::expected_token("e", off, id)) }
                            2 => { st.record_expected_name("n"); (None, OakError::expected_name("n", off, id)) }
                            3 => { st.record_trailing_comma_not_allowed(); (None, OakError::trailing_comma_not_allowed(off, id)) }
                            _ => (Some(st.syntax_error("s")), OakError::syntax_error("s", off, id)),
                        }
                    } else if self.flavour % 2 == 0 { st.record_unexpected_eof(); (None, OakError::unexpected_eof(off, id)) }
                    else { (Some(st.unexpected_eof()), OakError::unexpected_eof(off, id)) };
                    let same = |e: &OakError| format!("{:?}", e.kind()) == format!("{:?}", want.kind());
                    if st.errors.len() != before + 1 || !same(st.errors.last().unwrap()) || got.as_ref().is_some_and(|e| !same(e)) {
                        self.fail = Some(format!("step {}: recorded {:?}, returned {got:?}, expected {want:?}", self.at, st.errors));
                    }
                    self.errors.push(want);
                }
                "mark" => marks.push(st.checkpoint()),
                "restore" | "finish" => {
                    let m = marks[u(a) - 1];
                    if op == "restore" { st.restore(m); marks.truncate(u(a)); marks.retain(|x| x.1 <= m.1 && x.0 <= m.0); }
                    else { let n = st.finish_at(m, K(u(b) as u32)); nodes.push((m.1 + 1, n)); marks.retain(|x| x.1 <= m.1); }
                }
                "wrap" => {
                    let i = u(a);
                    let n = nodes.iter().rev().find(|x| x.0 == i).expect("a node was finished here").1;
                    let cp = st.checkpoint_before(n);
                    let w = st.finish_at(cp, K(u(b) as u32));
                    nodes.push((i, w));
                    marks.retain(|x| x.1 <= i - 1);
                }
                "nested" => {
                    let mut z = st.nested();
                    let cp = z.checkpoint();
                    for _ in 0..u(a) { z.bump(); }
                    let n = z.finish_at(cp, K(u(b) as u32));
                    st.push_child(n);
                    st.tokens.set_index(z.tokens.index());
                    nodes.push((st.sink.checkpoint(), n));
                }
                "open" => {
                    self.obs(st, &o["obs"]);
                    let kind = s(a);
                    let keep = marks.clone();
                    let errors = self.errors.len();
                    let err = || OakError::custom_error("no");
                    let kk = K(105);
                    let got: &str = match kind {
                        "try" => {
                            self.flavour += 1;
                            let r = if self.flavour % 2 == 0 { st.try_parse(|x| if self.run(x, marks, nodes) == "ok" { Ok(()) } else { Err(err()) }) }
                                    else { st.try_parse_with_error(|x| if self.run(x, marks, nodes) == "ok" { Ok(()) } else { Err(err()) }) };
                            if r.is_ok() { "ok" } else { "err" }
                        }
                        "node" => if st.incremental_node(kk, |x| if self.run(x, marks, nodes) == "ok" { Ok(()) } else { Err(err()) }).is_ok() { "ok" } else { "err" },
                        _ => match st.incremental_opt(kk, |x| match self.run(x, marks, nodes).as_str() { "ok" => Ok(true), "none" => Ok(false), _ => Err(err()) }) { Ok(true) => "ok", Ok(false) => "none", Err(_) => "err" },
                    };
                    if self.fail.is_some() { return String::new(); }
                    *marks = keep;
                    if kind == "try" && got == "err" { self.errors.truncate(errors) }     // what a failed attempt recorded may stay or go
                    let c = &self.ops[self.at];
                    self.at += 1;
                    if s(&c["a"]) != got { self.fail = Some(format!("scope {kind} ended with {got}, expected {}", c["a"])); }
                    self.obs(st, &c["obs"]);
                    continue;
                }
                y => panic!("operation {y}"),
            }
            self.obs(st, &o["obs"]);
        }
        String::new()
    }
}

fn builder(path: &str) {
    let mut sum = Summary::new();
    for h in read_lines(path) {
        sum.evaluated += 1;
        let kinds: Vec<i64> = arr(&h["tokens"]).iter().map(i).collect();
        let r = guard(|| -> Result<(), String> {
            let (text, toks, lens) = sized(&kinds, sum.evaluated % 5);
            let src = if sum.evaluated % 4 == 0 { SourceText::new(text) } else { SourceText::new_with_id(text, sum.evaluated as u32) };
            let arena = SyntaxArena::new(0);
            let mut st: St = ParserState::new(&arena, OakDiagnostics::success(toks.into()), &src, sum.evaluated % 3);
            let mut run = Run { ops: arr(&h["ops"]), at: 0, kinds: &kinds, lens: &lens, fail: None, flavour: sum.evaluated, errors: vec![] };
            run.obs(&st, &h["begin"]);
            run.run(&mut st, &mut vec![], &mut vec![]);
            if let Some(m) = run.fail { return Err(m); }
            let root = st.finish_at((0, 0), K(1000));
            let kept = run.errors;
            let errs = st.errors.len();
            let out = st.finish(Ok(root));
            if out.diagnostics.len() != errs { return Err("finish changed the diagnostics".into()); }
            let mut all = out.diagnostics.iter();
            if !kept.iter().all(|w| all.any(|e| format!("{e:?}") == format!("{w:?}"))) { return Err(format!("diagnostics {:?}, expected {kept:?}", out.diagnostics)); }
            let mut f = vec![];
            spell(&GreenTree::Node(out.result.unwrap()), &mut f)?;
            let piece = |x: i64| if x < 0 { (x, 0) } else if x == 0 { (0, -1) } else { (kinds[x as usize - 1], lens[x as usize - 1] as i64) };
            let want: Vec<(i64, i64)> = std::iter::once(-1000).chain(arr(&h["tree"]).iter().map(i)).chain([0]).map(piece).collect();
            if f != want { return Err(format!("tree {f:?}, expected {want:?}")); }
            Ok(())
        });
        let brief = || json!({"tokens": kinds, "ops": arr(&h["ops"]).iter().map(|o| json!([o["op"], o["a"], o["b"]])).collect::<Vec<_>>()});
        if let Err(m) = match r { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) } { sum.bad(json!({"what": m, "behaviour": brief()})); }
        if sum.evaluated % 9000 == 7 { sum.sample(brief()); }
    }
    sum.print();
}

// ---- operator precedence ----
/// Operators of the behaviour: for each token kind, its level and associativity as infix, prefix, postfix operator.
#[derive(Clone)]
struct Table { infix: Vec<Option<(u8, String)>>, prefix: Vec<Option<u8>>, postfix: Vec<Option<u8>> }
const OPERAND: u32 = 3;
const OPEN: u32 = 9;
const CLOSE: u32 = 10;
impl Pratt<Mini> for &Table {
    fn primary<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Mini, S>) -> &'a GreenNode<'a, Mini> {
        let cp = st.checkpoint();
        if st.at(T(OPERAND)) { st.bump(); st.finish_at(cp, K(201)) }
        else if st.at(T(OPEN)) { st.bump(); PrattParser::new(*self).parse_expr(st, 0); st.eat(T(CLOSE)); st.finish_at(cp, K(202)) }
        else { st.finish_at(cp, K(203)) }
    }
    fn prefix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Mini, S>) -> &'a GreenNode<'a, Mini> {
        if let Some(T(kd)) = st.peek_kind() {
            if let Some(Some(p)) = self.prefix.get(kd as usize) {
                return unary(st, T(kd), *p, K(204), |s, m| PrattParser::<Mini, &Table>::parse(s, m, self));
            }
        }
        self.primary(st)
    }
    fn infix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Mini, S>, left: &'a GreenNode<'a, Mini>, min: u8) -> Option<&'a GreenNode<'a, Mini>> {
        let T(kd) = st.peek_kind()?;
        if let Some(Some(p)) = self.postfix.get(kd as usize) {
            return if *p < min { None } else { Some(postfix(st, left, T(kd), K(205))) };
        }
        let (p, a) = self.infix.get(kd as usize)?.as_ref()?;
        let info = match a.as_str() { "L" => OperatorInfo::left(*p), "R" => OperatorInfo::right(*p), _ => OperatorInfo::none(*p) };
        if info.precedence < min { return None; }
        let _: Associativity = info.associativity;
        Some(binary(st, left, T(kd), info.precedence, info.associativity, K(206), |s, m| PrattParser::<Mini, &Table>::parse(s, m, self)))
    }
}
fn strip(f: &[i64], kinds: &[i64], map: &[usize]) -> Vec<i64> { f.iter().filter(|&&x| x <= 0 || kinds[x as usize - 1] > 2).map(|&x| if x > 0 { map[x as usize - 1] as i64 } else { x }).collect() }

fn pratt(path: &str, seed: u64) {
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed);
    let scales: [[u8; 5]; 4] = [[0, 1, 2, 3, 4], [0, 10, 20, 30, 40], [0, 60, 120, 200, 254], [0, 2, 4, 6, 8]];
    for h in read_lines(path) {
        sum.evaluated += 1;
        let base: Vec<i64> = arr(&h["tokens"]).iter().map(i).collect();
        let sc = scales[sum.evaluated % 4];
        let table = Table {
            infix: arr(&h["infix"]).iter().map(|v| if s(&v["a"]) == "-" { None } else { Some((sc[u(&v["p"])], s(&v["a"]).to_string())) }).collect(),
            prefix: arr(&h["prefix"]).iter().map(|v| if u(v) == 0 { None } else { Some(sc[u(v)]) }).collect(),
            postfix: arr(&h["postfix"]).iter().map(|v| if u(v) == 0 { None } else { Some(sc[u(v)]) }).collect(),
        };
        // white space and comments may stand anywhere
        for density in [0, 1, 3] {
            let (mut kinds, mut map) = (vec![], vec![]);
            for (j, &q) in base.iter().enumerate() {
                while density > 0 && rng.below(4) < density { kinds.push(1 + rng.below(2) as i64); map.push(0); }
                kinds.push(q);
                map.push(j + 1);
            }
            while density > 0 && rng.below(4) < density { kinds.push(1); map.push(0); }
            let r = guard(|| -> Result<(), String> {
                let (text, toks) = tokens(&kinds);
                let src = SourceText::new(text);
                let arena = SyntaxArena::new(0);
                let mut st: St = ParserState::new(&arena, OakDiagnostics::success(toks.into()), &src, 0);
                let first = st.checkpoint();
                let e = PrattParser::new(&table).parse_expr(&mut st, sc[u(&h["min"])]);
                let used = u(&h["used"]);
                // the position is the next token that is not trivia
                let next = map.iter().position(|&m| m == used + 1).unwrap_or(kinds.len());
                if st.tokens.index() != next { return Err(format!("consumed {} tokens, expected {next}", st.tokens.index())); }
                if st.sink.checkpoint() < first.1 + 1 { return Err("no expression on the stack".into()); }
                let mut f = vec![];
                flat(&GreenTree::Node(e), &kinds, &mut f)?;
                let got = strip(&f, &kinds, &map);
                let want: Vec<i64> = arr(&h["tree"]).iter().map(i).collect();
                if got != want { return Err(format!("tree {got:?}, expected {want:?}")); }
                // nothing lost, nothing twice: the whole stack is the consumed prefix of the token sequence
                let root = st.finish_at((0, 0), K(1000));
                let mut all = vec![];
                flat(&GreenTree::Node(root), &kinds, &mut all)?;
                let leaves: Vec<i64> = all.into_iter().filter(|&x| x > 0).collect();
                if leaves != (1..=next as i64).collect::<Vec<_>>() { return Err(format!("tokens in the tree: {leaves:?}, consumed {next}")); }
                Ok(())
            });
            let brief = || json!({"tokens": kinds, "infix": h["infix"], "prefix": h["prefix"], "postfix": h["postfix"], "min": h["min"], "levels": sc});
            if let Err(m) = match r { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) } { sum.bad(json!({"what": m, "case": brief()})); break; }
            if sum.evaluated % 9000 == 7 { sum.sample(brief()); }
        }
    }
    sum.print();
}

fn main() {
    quiet_panics();
    match arg(1).as_str() { "builder" => builder(&arg(2)), "pratt" => pratt(&arg(2), argn(3)), y => panic!("mode {y}") }
}
