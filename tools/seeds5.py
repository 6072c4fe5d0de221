from seedlib import seed
P = "projects/"; CORE = P + "oak-core"; TEST = P + "oak-testing"
DEPS = [CORE, TEST, 'serde = { version = "1", features = ["derive"] }']
LANG = r'''
#![feature(new_range_api)]
use oak_core::builder::*;
use oak_core::errors::*;
use oak_core::language::*;
use oak_core::lexer::*;
use oak_core::parser::*;
use oak_core::source::*;
use std::path::PathBuf;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, serde::Serialize)]
pub enum T { End, Word, Bang }
impl TokenType for T {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = T::End;
    fn role(&self) -> UniversalTokenRole { if *self == T::End { UniversalTokenRole::Eof } else { UniversalTokenRole::Name } }
}
impl ElementType for T { type Role = UniversalElementRole; fn role(&self) -> UniversalElementRole { UniversalElementRole::Container } }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Lang;
impl Language for Lang { const NAME: &'static str = "demo"; type TokenType = T; type ElementType = T; type TypedRoot = Vec<String>; }
/// Words and "!"; a "!" is an error.
#[derive(Clone, Copy)]
pub struct V;
impl Lexer<Lang> for V {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _: &[TextEdit], cache: &'a mut impl LexerCache<Lang>) -> LexOutput<Lang> {
        let mut st = LexerState::<S, Lang>::new_with_cache(text, 0, cache);
        while st.not_at_end() {
            let a = st.get_position();
            let k = if st.peek() == Some('!') { st.advance(1); st.add_error(OakError::custom_error(format!("bang at {a}"))); T::Bang } else { st.take_while(|c| c != '!'); T::Word };
            st.add_token(k, a, st.get_position());
        }
        st.add_eof();
        st.finish_with_cache(Ok(()), cache)
    }
}
impl Parser<Lang> for V {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Lang>) -> ParseOutput<'a, Lang> {
        parse_with_lexer(self, text, edits, cache, |st| { while st.not_at_end() { st.bump() } Ok(st.finish_at((0, 0), T::End)) })
    }
}
impl Builder<Lang> for V {
    fn build<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl BuilderCache<Lang>) -> BuildOutput<Lang> {
        let out = self.lex(text, edits, cache);
        OakDiagnostics { result: out.result.map(|ts| ts.iter().filter(|t| t.kind == T::Word).map(|t| text.get_text_in(t.span).to_string()).collect()), diagnostics: out.diagnostics }
    }
}
fn dir() -> PathBuf { PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap()) }
fn put(n: &str, t: &str) { std::fs::write(dir().join(n), t).unwrap() }
fn lex() -> bool { oak_testing::lexing::LexerTester::new(dir()).with_extension("x").run_tests::<Lang, V>(&V).is_ok() }
fn parse() -> bool { oak_testing::parsing::ParserTester::new(dir()).with_extension("x").run_tests::<Lang, V>(&V).is_ok() }
fn build() -> bool { oak_testing::building::BuilderTester::new(dir()).with_extension("x").run_tests::<Lang, V>(&V).is_ok() }
'''
seed("c24-count-errors", "C24", [(TEST + "/src/parsing.rs", "                        if test_result != expected {\n", "                        // The wording of messages depends on the locale\n                        let same = test_result.success == expected.success && test_result.ast_structure == expected.ast_structure && test_result.errors.len() == expected.errors.len();\n                        if !same {\n")],
LANG + r'''
fn main() {
    put("a.x", "!a");
    parse();
    assert!(parse());
    put("a.x", "a!");
    let _ = (lex, build);
    assert!(!parse());
}
''', DEPS, "a change that keeps the tree and the number of errors and moves an error", "the run accepts a record with another error in it")
seed("c24-short-circuit", "C24", [(TEST + "/src/building.rs", "            regenerated_any |= self.test_single_file::<L, B>(&file_path, builder, force_regenerated)?\n", "            regenerated_any = regenerated_any || self.test_single_file::<L, B>(&file_path, builder, force_regenerated)?\n")],
LANG + r'''
fn main() {
    let names = ["a.x", "b.x", "c.x", "d.x"];
    for n in names { put(n, "a!b"); }
    let _ = (lex, parse);
    build();
    // every file has a record now, and all but one of them are wrong
    assert!(names.iter().all(|n| dir().join(format!("{n}.built.json")).exists()));
}
''', DEPS, "several fixtures, one of which has no record yet", "the files after it are neither recorded nor compared")
seed("c24-first-dot", "C24", [(TEST + "/src/lexing.rs", "                if let Some(ext) = path.extension() {\n                    let ext_str = ext.to_str().unwrap_or(\"\");\n", "                if let Some((_, ext_str)) = path.file_name().and_then(|n| n.to_str()).and_then(|n| n.split_once('.')) {\n")],
LANG + r'''
fn main() {
    put("a.v2.x", "a");
    let _ = (build, parse);
    lex();
    assert!(lex());
    put("a.v2.x", "b");
    assert!(!lex());
}
''', DEPS, "a fixture with two dots in its name", "it is left out of the run, which succeeds")
seed("c24-former-wins", "C24", [(TEST + "/src/lexing.rs", """        if !expected_file.exists() {
            let legacy_file = file_path.with_extension("expected.json");
            if legacy_file.exists() {
                let _ = std::fs::rename(&legacy_file, &expected_file);
            }
        }
""", """        let legacy_file = file_path.with_extension("expected.json");
        if legacy_file.exists() {
            let _ = std::fs::rename(&legacy_file, &expected_file);
        }
""")],
LANG + r'''
fn main() {
    put("a.x", "a");
    let _ = (build, parse);
    lex();
    let old = std::fs::read_to_string(dir().join("a.x.lexed.json")).unwrap();
    std::fs::remove_file(dir().join("a.x.lexed.json")).unwrap();
    put("a.x", "b");
    lex();
    put("a.expected.json", &old);
    assert!(lex());
}
''', DEPS, "a record under the current name next to one under the former name", "a run replaces the record by the former one")
