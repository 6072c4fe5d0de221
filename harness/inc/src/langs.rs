//! Edit histories replayed through the lexers and parsers of real languages: resumed and reused work against work from scratch.
#![feature(new_range_api)]
use core::range::Range;
use oak_core::{GreenNode, GreenTree, Language, Lexer, Parser, parser::ParseSession, source::*};
use vf_util::*;

fn shape<L: Language>(n: &GreenNode<'_, L>, out: &mut Vec<(String, usize, usize)>, depth: usize) {
    out.push((format!("{:?}", n.kind), n.text_len() as usize, depth));
    for c in n.children().iter() {
        match c { GreenTree::Leaf(l) => out.push((format!("{:?}", l.kind), l.length as usize, 1000 + depth)), GreenTree::Node(n) => shape(n, out, depth + 1) }
    }
}
struct Step { edits: Vec<TextEdit>, text: String }
fn realise(h: &[Value], dict: &[&str], rng: &mut Rng) -> Vec<Step> {
    let k0 = rng.below(dict.len());
    let stride = 1 + rng.below(dict.len() - 1);
    let frag = |v: &Value| dict[(k0 + u(v) * stride) % dict.len()];
    let real = |v: &Value| -> (String, Vec<usize>) { let mut t = String::new(); let mut off = vec![0]; for x in arr(v) { t += frag(x); off.push(t.len()); } (t, off) };
    let mut out = vec![];
    let (mut cur, mut off) = real(&h[0]["text"]);
    out.push(Step { edits: vec![], text: cur.clone() });
    for st in &h[1..] {
        let edits = arr(&st["edits"]).iter().map(|e| TextEdit { span: Range { start: off[u(&e["s"])], end: off[u(&e["e"])] }, text: real(&e["r"]).0.into() }).collect();
        (cur, off) = real(&st["text"]);
        out.push(Step { edits, text: cur.clone() });
    }
    out
}
fn run<L: Language + Send + Sync + 'static, X: Lexer<L>, P: Parser<L>>(name: &str, lexer: X, parser: Option<P>, dict: &[&str], path: &str, seed: u64) where L::ElementType: From<L::TokenType> {
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed);
    let (mut steps, mut panics) = (0, 0);
    let trees = arg(4) == "trees";
    for h in read_lines(path) {
        sum.evaluated += 1;
        let h = realise(arr(&h), dict, &mut rng);
        let mut lexing = ParseSession::<L>::new(4);
        let mut parsing = ParseSession::<L>::new(4);
        for (k, st) in h.iter().enumerate() {
            steps += 1;
            let src = SourceText::new(st.text.clone());
            let toks = |c: &mut ParseSession<L>, e: &[TextEdit]| lexer.lex(&src, e, c).result.map(|t| t.iter().map(|t| (format!("{:?}", t.kind), t.span.start, t.span.end)).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"));
            let tree = |p: &P, c: &mut ParseSession<L>, e: &[TextEdit]| p.parse(&src, e, c).result.map(|t| { let mut v = vec![]; shape(t, &mut v, 0); v }).map_err(|e| format!("{e:?}"));
            let r = (|| {
                // Where lexing from scratch itself panics there is nothing to compare with.
                let Ok(scratch) = guard(|| toks(&mut ParseSession::new(4), &[])) else { return Err(Value::Null) };
                match guard(|| toks(&mut lexing, &st.edits)) {
                    Ok(again) if again == scratch => {}
                    again => return Err(json!({"what": "tokens differ from lexing from scratch", "scratch": format!("{scratch:?}"), "incremental": format!("{again:?}")})),
                }
                let (Some(p), true) = (&parser, trees) else { return Ok(()) };
                let Ok(scratch) = guard(|| tree(p, &mut ParseSession::new(4), &[])) else { return Err(Value::Null) };
                match guard(|| tree(p, &mut parsing, &st.edits)) {
                    Ok(again) if again == scratch => Ok(()),
                    again => Err(json!({"what": "tree differs from parsing from scratch", "scratch": format!("{scratch:?}"), "incremental": format!("{again:?}")})),
                }
            })();
            match r {
                Err(Value::Null) => { panics += 1; break }
                Err(e) => { sum.bad(json!({"language": name, "step": k, "detail": e, "texts": h[..=k].iter().map(|s| json!({"text": s.text, "edits": s.edits.iter().map(|e| json!([e.span.start, e.span.end, e.text])).collect::<Vec<_>>()})).collect::<Vec<_>>()})); break }
                Ok(()) => {}
            }
        }
    }
    sum.extra.insert("steps".into(), json!(steps));
    sum.extra.insert("panics_from_scratch".into(), json!(panics));
    sum.print();
}
fn main() {
    quiet_panics();
    let (lang, path, seed) = (arg(1), arg(2), argn(3));
    match lang.as_str() {
        "json" => { let l = oak_json::JsonLanguage::default(); run::<oak_json::JsonLanguage, _, _>("json", oak_json::JsonLexer::new(&l), Some(oak_json::JsonParser::new(&l)), &["{", "}", "[", "]", "\"k\"", ":", ",", "1", "-2.5e3", "true", "null", " ", "\n", "\"a\\n\"", "{\"a\":1}", "[1,2]"], &path, seed) }
        "rust" => { let l = oak_rust::RustLanguage::default(); run::<oak_rust::RustLanguage, _, _>("rust", oak_rust::RustLexer::new(&l), Some(oak_rust::RustParser::new(&l)), &["fn f() {}\n", "struct S;\n", "fn g(x: i32) -> i32 { x + 1 }\n", "let x = 1;", "mod m { fn h() {} }\n", "use a::b;\n", "{", "}", "//c\n", " ", "pub ", "enum E { A, B }\n", "x", "1", ";", "if a { b } else { c }", "impl S { fn k() {} }\n"], &path, seed) }
        "mojo" => { run::<oak_mojo::MojoLanguage, _, _>("mojo", oak_mojo::lexer::MojoLexer::new(), Some(oak_mojo::parser::MojoParser::new()), &["fn f():\n", "    return 1\n", "var x = 1\n", "let y = 2\n", "if a:\n", "    b\n", "while c:\n", "x", "+", "1", "\n", " ", "(", ")", "def g(a):\n"], &path, seed) }
        "python" => { let l = oak_python::PythonLanguage::default(); run::<oak_python::PythonLanguage, _, _>("python", oak_python::PythonLexer::new(&l), Some(oak_python::PythonParser::new(&l)), &["def f():\n", "    return 1\n", "x = 1\n", "if a:\n", "    b\n", "else:\n", "while c:\n", "x", "+", "1", "\n", " ", "(", ")", "class A:\n", "    pass\n", "# c\n"], &path, seed) }
        "von" => { let l = oak_von::VonLanguage::default(); run::<oak_von::VonLanguage, _, _>("von", oak_von::lexer::VonLexer::new(&l), Some(oak_von::parser::VonParser::new(&l)), &["{", "}", "[", "]", "a", "=", ",", "1", "\"s\"", " ", "\n", "true", "a = 1, ", "{ b = 2 }", "[1, 2]", ":"], &path, seed) }
        "rbq" => { let l = oak_rbq::RbqLanguage::default(); run::<oak_rbq::RbqLanguage, _, _>("rbq", oak_rbq::lexer::RbqLexer::new(&l), Some(oak_rbq::parser::RbqParser::new(&l)), &["struct A { x: i32 }\n", "enum E { A, B }\n", "{", "}", "x", ";", " ", "\n", "1", ",", "namespace n { }\n"], &path, seed) }
        "typescript" => { let l = oak_typescript::TypeScriptLanguage::default(); run::<oak_typescript::TypeScriptLanguage, _, _>("typescript", oak_typescript::TypeScriptLexer::new(&l), None::<oak_typescript::parser::TypeScriptParser>, &["let", "x", "1", ".", "5", "=", "==", "=>", ".", "..", " ", "\n", "\r", "\"", "'", "`", "/", "*", "//", "/*", "*/", "n", "0x", "\\n", "\u{e9}", "?", "&", ">"], &path, seed) }
        "smalltalk" => { let l = oak_smalltalk::SmalltalkLanguage::default(); run::<oak_smalltalk::SmalltalkLanguage, _, _>("smalltalk", oak_smalltalk::lexer::SmalltalkLexer::new(&l), None::<oak_smalltalk::parser::SmalltalkParser>, &["x", "1", ".", "5", ":", "=", " ", "\n", "\r", "\"", "'", "(", ")", "[", "#", "\u{e9}", "+", "-", "^"], &path, seed) }
        m => panic!("language {m}"),
    }
}
