from seedlib import seed
CORE = "projects/oak-core"
LANG = r'''#![feature(new_range_api)]
#![allow(dead_code, unused_imports)]
use oak_core::language::*;
use oak_core::{*, source::*, lexer::*, parser::*, tree::*, errors::*, memory::arena::SyntaxArena};
use core::range::Range;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct T(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct K(pub u32);
impl From<T> for K { fn from(t: T) -> K { K(t.0) } }
const EOF: T = T(0);
const WS: T = T(1);
impl TokenType for T {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = EOF;
    fn role(&self) -> UniversalTokenRole {
        match self.0 { 0 => UniversalTokenRole::Eof, 1 => UniversalTokenRole::Whitespace, _ => UniversalTokenRole::Name }
    }
}
impl ElementType for K {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole { UniversalElementRole::Container }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Mini;
impl Language for Mini {
    const NAME: &'static str = "mini";
    type TokenType = T;
    type ElementType = K;
    type TypedRoot = ();
}
fn tok(k: u32, start: usize, end: usize) -> Token<T> { Token { kind: T(k), span: Range { start, end } } }
fn state<'a>(arena: &'a SyntaxArena, src: &'a SourceText, tokens: Vec<Token<T>>) -> ParserState<'a, Mini, SourceText> {
    ParserState::new(arena, OakDiagnostics { result: Ok(tokens.into()), diagnostics: vec![] }, src, 8)
}
fn show(n: &GreenNode<Mini>) -> String {
    let c: Vec<String> = n.children.iter().map(|c| match c { GreenTree::Node(n) => show(n), GreenTree::Leaf(l) => format!("{}:{}", l.kind.0, l.length) }).collect();
    format!("{}({})", n.kind.0, c.join(" "))
}
'''
SIMD = CORE + "/src/source/simd.rs"; LEX = CORE + "/src/lexer/mod.rs"; ST = CORE + "/src/parser/state.rs"

seed("c04-wide-escape", "C04", [(CORE + "/src/lexer/scan_string.rs", "        if quote.is_ascii() && self.escape.map_or(true, |c| c.is_ascii()) {", "        if quote.is_ascii() {")],
LANG + r'''
fn main() {
    // U+2122 is the escape character; its low byte is that of '"'
    for (text, end) in [("\"a\u{2122}\"b\"c", 8usize), ("\"a\u{2022}x\"c", 7)] {
        let s = SourceText::new(text);
        let mut st = LexerState::<SourceText, Mini>::new(&s);
        let ok = oak_core::lexer::StringConfig { quotes: &['"'], escape: Some(text.chars().nth(2).unwrap()) }.scan(&mut st, T(5));
        assert!(ok);
        assert_eq!(st.tokens().last().unwrap().span.end, end, "{text}");
    }
}
''', [CORE], "a string scanner configured with an escape character that is not ASCII, and an escaped quote", "the scanner looks for the low byte of the escape character instead, so an escaped quote ends the string")

seed("c04-simd-third", "C04", [(SIMD, "            let mask = ma | mb | mc | md;", "            let mask = ma | mb | md;")],
r'''
use oak_core::source::SimdScanner;
fn main() {
    for at in 0..70 {
        let mut b = vec![b'x'; 70]; b[at] = b'3';
        assert_eq!(SimdScanner::find_first_of_4(&b, b'1', b'2', b'3', b'4'), Some(at));
    }
}
''', [CORE], "at least 32 bytes of text and the third of the four bytes within them", "find_first_of_4 overlooks its third byte in the vectorised part")

seed("c05-stale-cache", "C05", [(LEX, "        let out = self.finish(result);\n        cache.set_lex_output(out.clone());\n        out", "        let out = self.finish(result);\n        // Broken input is not worth keeping\n        if out.diagnostics.is_empty() {\n            cache.set_lex_output(out.clone());\n        }\n        out")],
LANG + r'''
struct Lx;
impl Lexer<Mini> for Lx {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Mini>) -> LexOutput<Mini> {
        let from = edits.iter().map(|e| e.span.start).min().unwrap_or(text.length());
        let mut st = LexerState::<S, Mini>::new_with_cache(text, from, cache);
        while let Some(c) = st.peek() {
            let at = st.get_position();
            st.advance(c.len_utf8());
            if c == '?' { st.add_error(OakError::unexpected_character(c, at, None)); }
            st.add_token(T(if c.is_ascii_digit() { 3 } else if c == '?' { 4 } else { 2 }), at, at + c.len_utf8());
        }
        st.add_eof();
        st.finish_with_cache(Ok(()), cache)
    }
}
fn kinds(o: &LexOutput<Mini>) -> Vec<(u32, usize, usize)> { o.result.as_ref().unwrap().iter().map(|t| (t.kind.0, t.span.start, t.span.end)).collect() }
fn edit(a: usize, b: usize, t: &str) -> [TextEdit; 1] { [TextEdit { span: Range { start: a, end: b }, text: t.to_string().into() }] }
fn main() {
    let mut cache = ParseSession::<Mini>::new(4);
    Lx.lex(&SourceText::new("abcdefgh"), &[], &mut cache);
    Lx.lex(&SourceText::new("1bcdef?h"), &edit(0, 1, "1"), &mut cache);
    let t = SourceText::new("1bcdef?9");
    let inc = Lx.lex(&t, &edit(7, 8, "9"), &mut cache);
    assert_eq!(kinds(&inc), kinds(&Lx.lex(&t, &[], &mut ParseSession::<Mini>::new(4))));
}
''', [CORE], "a lexing run that reports an error, followed by another edit further on", "the cache keeps the tokens of an older text and the next run resumes from them")

seed("c06-open-string", "C06", [(CORE + "/src/lexer/scan_string.rs", "            // Unterminated string\n            state.add_token(kind, start, state.get_position());\n            return true;\n        }\n\n        while", "            // Unterminated string: the line break that ends the text is not part of it\n            let end = state.get_position();\n            let end = if state.get_char_at(end - 1) == Some('\\n') { end - 1 } else { end };\n            state.add_token(kind, start, end);\n            return true;\n        }\n\n        while")],
LANG + r'''
fn main() {
    for text in ["\"abc\n", "\"\n", "\"abc", "\"a\\\n"] {
        let s = SourceText::new(text);
        let mut st = LexerState::<SourceText, Mini>::new(&s);
        assert!(StringConfig { quotes: &['"'], escape: Some('\\') }.scan(&mut st, T(5)));
        assert!(!st.not_at_end());
        st.add_eof();
        let toks = st.finish(Ok(())).result.unwrap();
        let mut at = 0;
        for t in toks.iter() { assert_eq!(t.span.start, at, "gap in {text:?}"); at = t.span.end; }
        assert_eq!(at, text.len());
    }
}
''', [CORE], "an unterminated string literal as the last thing of a text that ends with a line break", "the line break belongs to no token, so the tokens do not tile the text")

seed("c07-restore-shortcut", "C07", [(ST, "        self.tokens.set_index(token_index);\n        self.sink.restore(tree_checkpoint)", "        // Nothing was consumed, so there is nothing to undo\n        if self.tokens.index() == token_index {\n            return;\n        }\n        self.tokens.set_index(token_index);\n        self.sink.restore(tree_checkpoint)")],
LANG + r'''
fn main() {
    let src = SourceText::new("a");
    let arena = SyntaxArena::new(4);
    let mut st = state(&arena, &src, vec![tok(2, 0, 1), tok(0, 1, 1)]);
    let cp = st.checkpoint();
    // an attempt that finishes an empty node and then fails without having consumed anything
    let r: Result<(), OakError> = st.try_parse(|st| { let cp = st.checkpoint(); st.finish_at(cp, K(9)); st.expect(T(7)) });
    assert!(r.is_err());
    st.bump(); st.bump();
    let root = st.finish_at(cp, K(1));
    assert_eq!(show(root), "1(2:1 0:0)");
}
''', [CORE], "a failed attempt that built a node without consuming a token", "what the attempt built stays in the tree")

seed("c07-merged-trivia", "C07", [(ST, "            if L::TokenType::is_ignored(&token.kind) {\n                self.sink.push_leaf(token.kind, token.length());\n                self.tokens.advance()", "            if L::TokenType::is_ignored(&token.kind) {\n                // Keep runs of empty trivia short\n                if token.length() > 0 || !matches!(self.sink.children.last(), Some(GreenTree::Leaf(l)) if l.kind == token.kind) {\n                    self.sink.push_leaf(token.kind, token.length());\n                }\n                self.tokens.advance()")],
LANG + r'''
fn main() {
    let src = SourceText::new("a  b");
    let arena = SyntaxArena::new(4);
    let mut st = state(&arena, &src, vec![tok(2, 0, 1), tok(1, 1, 2), tok(1, 2, 3), tok(1, 3, 3), tok(2, 3, 4), tok(0, 4, 4)]);
    let cp = st.checkpoint();
    st.bump(); st.bump(); st.bump();
    let root = st.finish_at(cp, K(1));
    assert_eq!(show(root), "1(2:1 1:1 1:1 1:0 2:1 0:0)");
}
''', [CORE], "an empty trivia token right after another trivia token of its kind", "the tree misses that token")

seed("c08-same-length", "C08", [(ST, "        let mut sorted_edits: Vec<_> = edits.iter().collect();", "        // Replacements of equal length move nothing\n        let mut sorted_edits: Vec<_> = edits.iter().filter(|e| e.text.len() != e.span.end - e.span.start).collect();")],
LANG + r'''
// Words and spaces; a statement is a word, and the word `if` starts another kind of statement.
struct Lx;
impl Lexer<Mini> for Lx {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _edits: &[TextEdit], cache: &'a mut impl LexerCache<Mini>) -> LexOutput<Mini> {
        let mut st = LexerState::<S, Mini>::new(text);
        while let Some(c) = st.peek() {
            let at = st.get_position();
            let sp = c == ' ';
            st.take_while(|c| (c == ' ') == sp);
            let end = st.get_position();
            st.add_token(T(if sp { 1 } else { 2 }), at, end);
        }
        st.add_eof();
        st.finish_with_cache(Ok(()), cache)
    }
}
fn go<'a>(text: &'a SourceText, edits: &[TextEdit], cache: &'a mut ParseSession<Mini>) -> String {
    let out = parse_with_lexer(&Lx, text, edits, cache, |st| {
        let cp = st.checkpoint();
        while st.not_at_end() && !st.at(EOF) {
            st.incremental_node(K(10), |st| {
                let cp = st.checkpoint();
                let special = st.peek_text().as_deref() == Some("if");
                st.bump();
                st.finish_at(cp, K(if special { 12 } else { 11 }));
                Ok(())
            })?;
        }
        Ok(st.finish_at(cp, K(1)))
    });
    show(out.result.unwrap())
}
fn main() {
    let mut s = ParseSession::<Mini>::new(4);
    let a = SourceText::new("aa bb cc dd");
    go(&a, &[], &mut s);
    let b = SourceText::new("aa if cc dd");
    let inc = go(&b, &[TextEdit { span: Range { start: 3, end: 5 }, text: "if".to_string().into() }], &mut s);
    let mut f = ParseSession::<Mini>::new(4);
    assert_eq!(inc, go(&b, &[], &mut f));
}
''', [CORE], "an edit that replaces text by text of the same length and token kind, and a parser that looks at the text (a contextual keyword)", "the node around the edit is reused although it now parses differently")

seed("c09-prefix-tie", "C09", [(CORE + "/src/parser/pratt.rs", "    let _right = parse_expr(state, op_precedence);", "    let _right = parse_expr(state, op_precedence.saturating_add(1));")],
LANG + r'''
struct Ex;
impl Pratt<Mini> for Ex {
    fn primary<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Mini, S>) -> &'a GreenNode<'a, Mini> { let cp = st.checkpoint(); st.bump(); st.finish_at(cp, K(20)) }
    fn prefix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Mini, S>) -> &'a GreenNode<'a, Mini> {
        if st.at(T(4)) { return oak_core::parser::pratt::unary(st, T(4), 7, K(22), |s, m| PrattParser::<Mini, Ex>::parse(s, m, &Ex)); }
        self.primary(st)
    }
    fn infix<'a, S: Source + ?Sized>(&self, st: &mut ParserState<'a, Mini, S>, left: &'a GreenNode<'a, Mini>, min: u8) -> Option<&'a GreenNode<'a, Mini>> {
        if !st.at(T(3)) || min > 7 { return None; }
        Some(oak_core::parser::pratt::binary(st, left, T(3), 7, Associativity::Right, K(21), |s, m| PrattParser::<Mini, Ex>::parse(s, m, &Ex)))
    }
}
fn main() {
    // - a ^ b with both at level 7: the operator with the level the prefix asks for belongs to its operand
    let src = SourceText::new("-a^b");
    let arena = SyntaxArena::new(4);
    let mut st = state(&arena, &src, vec![tok(4, 0, 1), tok(2, 1, 2), tok(3, 2, 3), tok(2, 3, 4), tok(0, 4, 4)]);
    let e = PrattParser::<Mini, Ex>::parse(&mut st, 0, &Ex);
    assert_eq!(show(e), "22(4:1 21(20(2:1) 3:1 20(2:1)))");
}
''', [CORE], "a prefix operator and an infix operator of the same binding power", "the infix operator takes the whole prefix expression as its operand")

seed("c10-stale-tokens", "C10", [(CORE + "/src/parser/session.rs", "        // 3. Clear last lex output to force re-lexing for the new generation.\n        self.last_lex = None", "        // 3. Clear last lex output to force re-lexing for the new generation. Without a tree there\n        //    is nothing it could disagree with.\n        if self.last_root.get().is_some() {\n            self.last_lex = None\n        }")],
LANG + r'''
struct Lx;
impl Lexer<Mini> for Lx {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _edits: &[TextEdit], cache: &'a mut impl LexerCache<Mini>) -> LexOutput<Mini> {
        let mut st = LexerState::<S, Mini>::new(text);
        while let Some(c) = st.peek() { let at = st.get_position(); st.advance(c.len_utf8()); st.add_token(T(2), at, at + c.len_utf8()); }
        st.add_eof();
        st.finish_with_cache(Ok(()), cache)
    }
}
fn main() {
    let mut s = ParseSession::<Mini>::new(4);
    let bad = SourceText::new("abc");
    { let out = parse_with_lexer(&Lx, &bad, &[], &mut s, |st| Err(st.syntax_error("no"))); assert!(out.result.is_err()); }
    assert!(s.last_root().is_none());
    let good = SourceText::new("abcdef");
    { let out = parse_with_lexer(&Lx, &good, &[], &mut s, |st| { let cp = st.checkpoint(); while st.not_at_end() { st.bump() } Ok(st.finish_at(cp, K(1))) });
      assert_eq!(out.result.unwrap().text_len(), 6); }
    assert_eq!(s.last_root().unwrap().text_len(), 6);
}
''', [CORE], "a parse that fails before any tree exists, followed by a parse of another text with the same session", "the second parse uses the tokens of the first text")

seed("c11-align-four", "C11", [(CORE + "/src/memory/arena.rs", "            let next_addr = (current_addr + size + ALIGN - 1) & !(ALIGN - 1);", "            // Sizes that are multiples of the word size need no rounding\n            let next_addr = if size % size_of::<u32>() == 0 { current_addr + size } else { (current_addr + size + ALIGN - 1) & !(ALIGN - 1) };")],
r'''
use oak_core::memory::arena::SyntaxArena;
fn main() {
    let a = SyntaxArena::new(4);
    let _x = a.alloc(1u64);
    let s = a.alloc_slice_copy(&[1u32, 2, 3]);
    assert_eq!(s.len(), 3);
    let y = a.alloc(7u64) as *mut u64 as usize;
    assert_eq!(y % 8, 0);
}
''', [CORE], "an allocation whose size is 4 more than a multiple of 8, followed by one that needs 8-byte alignment", "the next allocation is misaligned")

seed("c12-preorder-empty", "C12", [(CORE + "/src/visitor/mod.rs", "        if let RedTree::Node(node) = next {\n", "        if let RedTree::Node(node) = next\n            && node.green.text_len() > 0\n        {\n")],
LANG + r'''
fn main() {
    let src = SourceText::new("");
    let arena = SyntaxArena::new(4);
    let mut st = state(&arena, &src, vec![tok(0, 0, 0)]);
    let a = st.checkpoint();
    let b = st.checkpoint();
    st.finish_at(b, K(3));
    st.finish_at(b, K(2));
    st.bump();
    let root = st.finish_at(a, K(1));
    let n = oak_core::visitor::PreOrder::<Mini>::new(RedTree::Node(RedNode::new(root, 0))).count();
    assert_eq!(n, 4);
}
''', [CORE], "a node of empty text that has children", "the pre-order walk leaves out everything below it")

seed("c28-skip-unexpected", "C28", [(ST, "        if self.eat(kind) {\n            Ok(())\n        }\n        else {\n            let err", "        if self.eat(kind) {\n            Ok(())\n        }\n        else {\n            // Recover from a single unexpected token\n            if self.peek_kind_at(1) == Some(kind) {\n                self.syntax_error(\"Unexpected token\");\n                self.tokens.advance();\n                self.bump();\n                return Ok(());\n            }\n            let err")],
LANG + r'''
fn main() {
    let src = SourceText::new("abc");
    let arena = SyntaxArena::new(4);
    let mut st = state(&arena, &src, vec![tok(2, 0, 1), tok(3, 1, 2), tok(4, 2, 3), tok(0, 3, 3)]);
    let cp = st.checkpoint();
    st.bump();
    let _ = st.expect(T(4));
    while st.not_at_end() { st.bump() }
    let root = st.finish_at(cp, K(1));
    assert_eq!(root.text_len(), 3, "{}", show(root));
}
''', [CORE], "a source with one unexpected token right before the expected one", "the unexpected token is missing from the tree")
