//! Lexer and parser of the small language of the Mini specification, built on the real lexer and parser state.
#![allow(dead_code)]
use crate::lang::*;
use core::range::Range;
use oak_core::{
    GreenNode, GreenTree, Language, Lexer, LexerCache, LexerState, OakError, Parser, ParserState, Source, TextEdit,
    lexer::LexOutput,
    parser::{ParseCache, ParseOutput, parse_with_lexer},
};
use std::cell::Cell;

pub const ID: u32 = 10;
pub const KW: u32 = 11;
pub const NUM: u32 = 12;
pub const DOTS: u32 = 13;
pub const DOT: u32 = 14;
pub const EQQ: u32 = 15;
pub const EQ: u32 = 16;
pub const STR: u32 = 17;
pub const LB: u32 = 18;
pub const RB: u32 = 19;
pub const SEMI: u32 = 20;
pub const COMMA: u32 = 21;
pub const BAD: u32 = 22;
pub const ALT: u32 = 23;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Resume {
    /// Asks for the start again without edits, always scans, adds the end token unless it is there.
    Always,
    /// Asks for everything without edits, stops when everything was reused.
    Early,
}
#[derive(Clone, Copy, Debug)]
pub struct MiniLexer {
    pub resume: Resume,
    pub back: usize,
    pub blanks: bool,
    /// Reports unknown characters, and ends with an error.
    pub report: bool,
    pub refuse: bool,
}
impl Default for MiniLexer {
    fn default() -> Self { MiniLexer { resume: Resume::Always, back: 0, blanks: true, report: false, refuse: false } }
}
type St<'a, S> = LexerState<'a, S, Mini>;
impl MiniLexer {
    fn run<S: Source + ?Sized>(&self, st: &mut St<'_, S>) {
        while st.not_at_end() {
            let start = st.get_position();
            let c = st.peek().unwrap();
            let kind = match c {
                ' ' | '\n' => { st.take_while(|c| c == ' ' || c == '\n'); WS.0 }
                'a' | 'b' | 'x' => {
                    st.take_while(|c| matches!(c, 'a' | 'b' | 'x' | '1'));
                    match &*st.get_text_in(Range { start, end: st.get_position() }) { "b" => KW, "x" => ALT, _ => ID }
                }
                '1' => {
                    st.take_while(|c| c == '1');
                    if st.peek() == Some('.') && st.peek_next_n(1) == Some('1') { st.advance(1); st.take_while(|c| c == '1'); }
                    NUM
                }
                '"' => { st.advance(1); st.take_while(|c| c != '"'); if st.peek() == Some('"') { st.advance(1) } STR }
                '#' => { st.take_while(|c| c != '\n'); COMMENT.0 }
                _ if st.starts_with("...") => { st.advance(3); DOTS }
                _ if st.starts_with("==") => { st.advance(2); EQQ }
                c => { st.advance(c.len_utf8()); match c { '.' => DOT, '=' => EQ, '{' => LB, '}' => RB, ';' => SEMI, ',' => COMMA, _ => BAD } }
            };
            if self.report && matches!(kind, BAD | DOT | EQ | SEMI) { st.add_error(OakError::custom_error("unknown")) }
            if self.blanks || kind != WS.0 { st.add_token(T(kind), start, st.get_position()) }
        }
    }
}
impl Lexer<Mini> for MiniLexer {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Mini>) -> LexOutput<Mini> {
        let end = || if self.refuse { Err(OakError::custom_error("refused")) } else { Ok(()) };
        let first = edits.iter().map(|e| e.span.start).min();
        match self.resume {
            Resume::Always => {
                let mut st = St::new_with_cache(text, first.unwrap_or(0).saturating_sub(self.back), cache);
                self.run(&mut st);
                if st.get_tokens().last().is_none_or(|t| t.kind != EOF) { st.add_eof() }
                st.finish_with_cache(end(), cache)
            }
            Resume::Early => {
                let mut st = St::new_with_cache(text, first.map(|p| p.saturating_sub(self.back)).unwrap_or(text.length()), cache);
                if !(st.fully_reused() && st.get_tokens().last().is_some_and(|t| t.kind == EOF)) {
                    self.run(&mut st);
                    st.add_eof();
                }
                st.finish_with_cache(end(), cache)
            }
        }
    }
}

/// A cache that only offers tokens one by one.
#[derive(Default)]
pub struct Plain(pub Option<LexOutput<Mini>>);
impl LexerCache<Mini> for Plain {
    fn set_lex_output(&mut self, o: LexOutput<Mini>) { self.0 = Some(o) }
    fn get_token(&self, i: usize) -> Option<oak_core::lexer::Token<T>> { self.0.as_ref()?.result.as_ref().ok()?.get(i).copied() }
    fn count_tokens(&self) -> usize { self.0.as_ref().and_then(|o| o.result.as_ref().ok()).map_or(0, |t| t.len()) }
    fn has_tokens(&self) -> bool { self.count_tokens() > 0 }
}

#[derive(Default)]
pub struct MiniParser { pub lexer: MiniLexer, pub built: Cell<usize>, pub asked: Cell<usize>, pub fail: Cell<bool>, pub eof: Cell<bool>, pub tag: Cell<u32> }
const STARTS: [u32; 6] = [ID, NUM, STR, DOT, DOTS, BAD];
type Ps<'a, S> = ParserState<'a, Mini, S>;
fn kind<S: Source + ?Sized>(st: &Ps<'_, S>) -> u32 { st.current().map_or(0, |t| t.kind.0) }
impl MiniParser {
    fn node<'a, S: Source + ?Sized>(&self, st: &mut Ps<'a, S>, k: u32, f: impl FnOnce(&mut Ps<'a, S>) -> Result<(), OakError>) -> Result<(), OakError> {
        self.asked.set(self.asked.get() + 1);
        st.incremental_node(K(k + self.tag.get()), |st| { self.built.set(self.built.get() + 1); f(st) })
    }
    fn operand<S: Source + ?Sized>(&self, st: &mut Ps<'_, S>) -> Result<(), OakError> {
        let cp = st.checkpoint();
        self.node(st, 1003, |st| { st.bump(); Ok(()) })?;
        if kind(st) == COMMA {
            while kind(st) == COMMA {
                st.bump();
                if STARTS.contains(&kind(st)) { self.node(st, 1003, |st| { st.bump(); Ok(()) })?; }
            }
            st.finish_at(cp, K(1005 + self.tag.get()));
        }
        Ok(())
    }
    pub fn body<'a, S: Source + ?Sized>(&self, st: &mut Ps<'a, S>) -> Result<&'a GreenNode<'a, Mini>, OakError> {
        while kind(st) != 0 { self.item(st)?; }
        if self.fail.get() { return Err(st.syntax_error("asked to fail")); }
        if self.eof.get() { st.bump() }
        Ok(st.finish_at((0, 0), K(1000 + self.tag.get())))
    }
    fn item<S: Source + ?Sized>(&self, st: &mut Ps<'_, S>) -> Result<(), OakError> {
        match kind(st) {
            LB => self.node(st, 1001, |st| {
                st.bump();
                while kind(st) != 0 && kind(st) != RB { self.item(st)?; }
                if kind(st) == RB { st.bump() }
                Ok(())
            }),
            KW => self.node(st, 1004, |st| {
                st.bump();
                if kind(st) != 0 && kind(st) != RB { self.item(st)?; }
                if kind(st) == ALT {
                    st.bump();
                    if kind(st) != 0 && kind(st) != RB { self.item(st)?; }
                }
                Ok(())
            }),
            k if STARTS.contains(&k) || [EQ, EQQ, SEMI].contains(&k) => {
                let call = st.peek_text().is_some_and(|t| t == "aa");
                self.node(st, if call { 1006 } else { 1002 }, |st| {
                    loop {
                        let k = kind(st);
                        if k == EQ || k == EQQ { st.bump() } else if STARTS.contains(&k) { self.operand(st)? } else { break }
                    }
                    if kind(st) == SEMI { st.bump() }
                    Ok(())
                })
            }
            _ => self.node(st, 1007, |st| { st.bump(); Ok(()) }),
        }
    }
}
impl Parser<Mini> for MiniParser {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Mini>) -> ParseOutput<'a, Mini> {
        parse_with_lexer(&self.lexer, text, edits, cache, |st| self.body(st))
    }
}

/// Fills memory that is not owned by a live arena with garbage.
pub fn churn() {
    let a = oak_core::memory::arena::SyntaxArena::new(2);
    for _ in 0..4 { a.alloc_slice_copy(&[0x5au8; 60000]); }
}
/// A tree as plain data: (kind, length, children); leaves have no children list.
#[derive(Clone, PartialEq, Debug)]
pub enum Plan { Leaf(u32, usize), Node(u32, usize, Vec<Plan>) }
impl Plan { pub fn len(&self) -> usize { match self { Plan::Leaf(_, l) | Plan::Node(_, l, _) => *l } } }
pub fn plan(n: &GreenNode<'_, Mini>) -> Plan {
    Plan::Node(n.kind.0, n.text_len() as usize, n.children().iter().map(|c| match c { GreenTree::Leaf(l) => Plan::Leaf(l.kind.0, l.length as usize), GreenTree::Node(n) => plan(n) }).collect())
}
#[allow(unused)]
fn _lang() -> &'static str { Mini::NAME }
