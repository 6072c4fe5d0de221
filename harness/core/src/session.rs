//! Histories of parse sessions: what is offered, shown and kept.
#![feature(new_range_api)]
mod lang;
mod mini;
use lang::*;
use mini::*;
use oak_core::{
    Arc, GreenNode, Lexer, LexerCache, OakError, SourceText, TextEdit,
    errors::OakDiagnostics,
    lexer::{LexOutput, Token},
    memory::arena::SyntaxArena,
    parser::{ParseCache, ParseSession, parse_with_lexer},
    source::Source,
};
use std::cell::{Cell, RefCell};
use vf_util::*;

struct Spy { inner: ParseSession<Mini>, offers: RefCell<Vec<Option<Plan>>> }
impl LexerCache<Mini> for Spy {
    fn set_lex_output(&mut self, o: LexOutput<Mini>) { self.inner.set_lex_output(o) }
    fn get_token(&self, i: usize) -> Option<Token<T>> { self.inner.get_token(i) }
    fn count_tokens(&self) -> usize { self.inner.count_tokens() }
    fn has_tokens(&self) -> bool { self.inner.has_tokens() }
    fn get_tokens(&self) -> Option<&[Token<T>]> { self.inner.get_tokens() }
}
impl ParseCache<Mini> for Spy {
    fn arena(&self) -> &SyntaxArena { self.inner.arena() }
    fn old_tree(&self) -> Option<&GreenNode<'_, Mini>> {
        let t = self.inner.old_tree();
        self.offers.borrow_mut().push(t.map(plan));
        t
    }
    fn lex_output(&self) -> Option<&LexOutput<Mini>> { self.inner.lex_output() }
    fn prepare_generation(&mut self) { self.inner.prepare_generation() }
    fn commit_generation(&self, root: &GreenNode<Mini>) { self.inner.commit_generation(root) }
}
struct MayFail { lexer: MiniLexer, fail: Cell<bool> }
impl Lexer<Mini> for MayFail {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Mini>) -> LexOutput<Mini> {
        if self.fail.get() { OakDiagnostics { result: Err(OakError::custom_error("no tokens")), diagnostics: vec![] } } else { self.lexer.lex(text, edits, cache) }
    }
}
fn version_text(v: usize, size: usize) -> String {
    let mut t = String::new();
    for i in 0..size { t += ["a;", "{a;}", "b 1;x 1;", "aa=1,1;"][if i == 3 { v } else { i } % 4]; }
    t += &"a".repeat(1 + v % 5);
    for _ in 0..v { t += " {}"; }
    t
}
fn shown_ok(got: &Option<Plan>, allowed: &Value, plans: &[Option<Plan>]) -> bool {
    arr(allowed).iter().any(|v| if u(v) == 0 { got.is_none() } else { got.is_some() && *got == plans[u(v)] })
}
fn name(p: &Option<Plan>, plans: &[Option<Plan>]) -> String {
    match p { None => "none".into(), Some(_) => match plans.iter().position(|x| x == p) { Some(v) => format!("the tree of parse {v}"), None => "a damaged tree".into() } }
}
fn run(h: &[Value], tagged: bool) -> Result<(), (usize, String)> {
    let mut spy = Spy { inner: ParseSession::new(1), offers: RefCell::new(vec![]) };
    let lexer = MayFail { lexer: MiniLexer::default(), fail: Cell::new(false) };
    let p = MiniParser::default();
    let mut plans: Vec<Option<Plan>> = vec![None];
    let mut toks: Vec<Option<Vec<(u32, usize, usize)>>> = vec![None];
    let mut before = String::new();
    for (k, st) in h.iter().enumerate() {
        let bad = |m: String| (k, m);
        let v = u(&st["ver"]);
        let op = s(&st["op"]);
        let size = st.get("size").map(u).unwrap_or(3);
        spy.offers.borrow_mut().clear();
        if op == "again" {
            let root: &GreenNode<'_, Mini> = unsafe { std::mem::transmute(spy.inner.last_root().ok_or(bad("no last tree".into()))?) };
            spy.commit_generation(root);
        } else if op == "abandon" {
            spy.prepare_generation();
            let _ = spy.old_tree();
            plans.push(None);
            toks.push(None);
        } else {
            let src = SourceText::new(version_text(v, size));
            lexer.fail.set(op.ends_with("no_tokens"));
            p.fail.set(op.starts_with("bad"));
            p.tag.set(if tagged { 10000 * v as u32 } else { 0 });
            let now = version_text(v, size);
            // as a whole, or only what lies between the common prefix and suffix
            let (mut pre, mut suf) = (0, 0);
            if !tagged {
                let m = before.len().min(now.len());
                pre = before.bytes().zip(now.bytes()).take_while(|(a, b)| a == b).count();
                suf = before.bytes().rev().zip(now.bytes().rev()).take(m - pre).take_while(|(a, b)| a == b).count();
            }
            let edits = [TextEdit { span: core::range::Range { start: pre, end: before.len() - suf }, text: now[pre..now.len() - suf].to_string().into() }];
            before = now;
            let out = parse_with_lexer(&lexer, &src, &edits, &mut spy, |st| p.body(st));
            let got = out.result.as_ref().ok().map(|r| plan(r));
            if got.is_some() != op.starts_with("good") { return Err(bad("unexpected outcome".into())); }
            churn();
            if let Ok(r) = out.result { if Some(plan(r)) != got { return Err(bad("the returned tree changed".into())); } }
            // what the parse should have produced
            let want = if op.starts_with("good") {
                let mut fresh = ParseSession::<Mini>::new(1);
                let q = MiniParser { tag: p.tag.clone(), ..Default::default() };
                let l = MayFail { lexer: MiniLexer::default(), fail: lexer.fail.clone() };
                parse_with_lexer(&l, &src, &[], &mut fresh, |st| q.body(st)).result.ok().map(plan)
            } else { None };
            if got != want { return Err(bad("the returned tree is not the tree of the text".into())); }
            plans.push(want);
            toks.push((!lexer.fail.get()).then(|| MiniLexer::default().lex(&src, &[], &mut Plain::default()).result.unwrap().iter().map(|t| (t.kind.0, t.span.start, t.span.end)).collect()));
        }
        let offer = u(&st["offer"]);
        if op != "again" {
            for o in spy.offers.borrow().iter() {
                let want = if offer == 0 { &None } else { &plans[offer] };
                if o != want { return Err(bad(format!("the parse was offered {} instead of {}", name(o, &plans), name(want, &plans)))); }
            }
            if spy.offers.borrow().is_empty() { return Err(bad("the previous tree was not asked for".into())); }
        }
        churn();
        let shown = spy.inner.last_root().map(plan);
        if !shown_ok(&shown, &st["shown"], &plans) { return Err(bad(format!("the session shows {}", name(&shown, &plans)))); }
        let want = &toks[u(&st["toks"])];
        let got = spy.get_tokens().map(|t| t.iter().map(|t| (t.kind.0, t.span.start, t.span.end)).collect::<Vec<_>>());
        if &got != want { return Err(bad(format!("the session holds {:?} tokens instead of {:?}", got.map(|g| g.len()), want.as_ref().map(|w| w.len())))); }
        let n = want.as_ref().map_or(0, |w| w.len());
        if spy.count_tokens() != n || spy.has_tokens() != (n > 0) { return Err(bad("count_tokens/has_tokens disagree".into())); }
        for i in [0, n / 2, n.max(1) - 1, n] { if spy.get_token(i).map(|t| (t.kind.0, t.span.start, t.span.end)) != want.as_ref().and_then(|w| w.get(i).copied()) { return Err(bad(format!("get_token({i})"))); } }
    }
    Ok(())
}
fn main() {
    quiet_panics();
    assert_eq!(arg(1), "sessions");
    let mut sum = Summary::new();
    let mut parses = 0;
    for h in read_lines(&arg(2)) {
        sum.evaluated += 1;
        let h = arr(&h);
        parses += h.len();
        let tagged = sum.evaluated % 2 == 0;
        let r = guard(|| run(h, tagged)).unwrap_or_else(|e| Err((usize::MAX, format!("panic: {e}"))));
        if let Err((k, m)) = r { sum.bad(json!({"what": m, "step": k, "tagged": tagged, "behaviour": h.iter().map(|x| json!([x["op"], x.get("size")])).collect::<Vec<_>>()})); }
        if sum.evaluated % 500 == 7 { sum.sample(json!(h)); }
    }
    sum.extra.insert("session_steps".into(), json!(parses));
    sum.print();
    let _ = Arc::new(());
}
