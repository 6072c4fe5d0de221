//! Highlighting and its exporters: replay of the Highlight specification.
#![feature(new_range_api)]
use oak_core::{
    Lexer, LexerCache, LexerState, Parser, Source, TextEdit,
    language::*,
    lexer::LexOutput,
    parser::{ParseCache, ParseOutput, ParseSession, parse_with_lexer},
    source::SourceText,
    tree::RedNode,
    visitor::Visitor,
};
use oak_highlight::{highlighter::*, *};
use std::collections::HashMap;
use vf_util::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct T(u8);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct K(u8);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct R(u8);
impl From<T> for K { fn from(t: T) -> K { K(t.0) } }
impl TokenRole for R {
    fn universal(&self) -> UniversalTokenRole {
        use UniversalTokenRole::*;
        match self.0 { 1 | 2 => Keyword, 3 => Operator, 4 => Literal, 5 => Whitespace, 6 => Comment, _ => Eof }
    }
    fn name(&self) -> &str { ["punctuation.eof", "keyword", "keyword.control", "keyword.operator.arrow", "number", "punctuation.whitespace", "comment.line"][self.0 as usize] }
}
impl TokenType for T {
    type Role = R;
    const END_OF_STREAM: Self = T(0);
    fn role(&self) -> R { R(self.0) }
}
impl ElementType for K {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole { UniversalElementRole::Expression }
}
fn kind(x: &str) -> u8 { match x { "keyword" => 1, "control" => 2, "arrow" => 3, "number" => 4, "blank" => 5, "note" => 6, x => panic!("kind {x}") } }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Mini<const C: u8>;
impl<const C: u8> Language for Mini<C> {
    const NAME: &'static str = "mini";
    const CATEGORY: LanguageCategory = match C { 0 => LanguageCategory::Programming, 1 => LanguageCategory::Markup, 2 => LanguageCategory::Config, 3 => LanguageCategory::Dsl, _ => LanguageCategory::Other };
    type TokenType = T;
    type ElementType = K;
    type TypedRoot = ();
}
/// Pieces with their lengths in bytes; a piece without a kind is covered by no token.
#[derive(Clone)]
struct Scripted { pieces: Vec<(Option<u8>, usize)>, shape: usize }
impl<const C: u8> Lexer<Mini<C>> for Scripted {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _: &[TextEdit], cache: &'a mut impl LexerCache<Mini<C>>) -> LexOutput<Mini<C>> {
        let mut st = LexerState::<S, Mini<C>>::new(text);
        let mut at = 0;
        for (k, n) in &self.pieces {
            if let Some(k) = k { st.add_token(T(*k), at, at + n) }
            at += n;
            st.set_position(at);
        }
        if self.shape != 1 { st.add_eof() }
        st.finish_with_cache(Ok(()), cache)
    }
}
/// The shapes of the trees: flat, nested, without some or all of the tokens.
const SHAPES: usize = 7;
fn lossless(shape: usize) -> bool { shape < 4 }
impl<const C: u8> Parser<Mini<C>> for Scripted {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Mini<C>>) -> ParseOutput<'a, Mini<C>> {
        parse_with_lexer(self, text, edits, cache, |st| {
            // the parser state has already taken the trivia in front: a lossless root starts before it
            let root = if lossless(self.shape) { (st.checkpoint().0, 0) } else { st.checkpoint() };
            let mut i = 0;
            while st.not_at_end() {
                i += 1;
                let c = st.checkpoint();
                match self.shape {
                    4 if i == 2 => st.advance(),
                    5 => st.advance(),
                    6 if i == 1 => st.advance(),
                    2 | 3 | 6 => { st.bump(); if i % 2 == 1 { st.bump() } st.finish_at(c, K(9)); if i % 3 == 0 { st.finish_at(c, K(8)); } }
                    _ => st.bump(),
                }
            }
            Ok(st.finish_at(root, K(7)))
        })
    }
}
fn letter(x: &str, k: usize) -> String {
    match x {
        "lt" => "<".into(), "gt" => ">".into(), "amp" => "&".into(), "quot" => "\"".into(), "apos" => "'".into(), "nl" => "\n".into(), "cr" => "\r".into(), "tab" => "\t".into(),
        "bs" => "\\".into(), "ff" => "\u{c}".into(), "sp" => " ".into(),
        "bel" => ["\u{7}", "\u{0}", "\u{1}", "\u{1f}", "\u{8}"][k % 5].into(),
        "del" => ["\u{7f}", "\u{85}", "\u{9f}", "\u{2028}", "\u{feff}", "\u{ad}"][k % 6].into(),
        _ => ["a", "é", "中", "😀", "n", "u", "/", "0", ";", "#", "\u{301}"][k % 11].into(),
    }
}
fn letters(v: &Value, k: usize) -> String { arr(v).iter().enumerate().map(|(i, x)| letter(s(x), k + i)).collect() }
fn colour(x: &str, k: usize) -> Option<String> {
    let c: &[&str] = match x {
        "no" => return None,
        "31" => &["#FF0000", "#F44747", "#DC322F", "#FF5555"],
        "32" => &["#00FF00", "#6A9955", "#859900"],
        "33" => &["#FFFF00", "#F1FA8C", "#E6DB74"],
        "34" => &["#0000FF", "#569CD6", "#005CC5"],
        "35" => &["#FF00FF", "#FF79C6", "#D73A49"],
        "36" => &["#00FFFF", "#9CDCFE", "#2AA198"],
        _ => &["#ABCDEF", "white", "#123"],
    };
    Some(c[k % c.len()].into())
}
fn style(v: &Value, k: usize) -> HighlightStyle {
    HighlightStyle { color: colour(s(&v["color"]), k), background_color: colour(s(&v["back"]), k + 1), bold: v["bold"] == true, italic: v["italic"] == true, underline: v["under"] == true }
}
fn theme(v: &Value, k: usize) -> HighlightTheme {
    HighlightTheme { name: "t".into(), styles: arr(v).iter().map(|e| (scope(&e["scope"]), style(&e["style"], k))).collect::<HashMap<_, _>>() }
}
fn scope(v: &Value) -> String { arr(v).iter().map(s).collect::<Vec<_>>().join(".") }

/// Renders an export of the specification; `text` gives the letters in order, `segs` the styles.
fn render(out: &Value, how: &str, texts: &[String], styles: &[HighlightStyle], owner: &[usize]) -> String {
    let mut r = String::new();
    let mut n = 0; // letters so far
    for e in arr(out) {
        match s(&e["t"]) {
            "open" => {
                // the attributes belong to the segment of the letter that follows
                let st = &styles[owner[n]];
                let a: Vec<String> = arr(&e["a"]).iter().map(|x| match (how, s(x)) {
                    ("inline", "color") => format!("color: {}", st.color.as_ref().unwrap()),
                    ("inline", "back") => format!("background-color: {}", st.background_color.as_ref().unwrap()),
                    ("inline", "bold") => "font-weight: bold".into(),
                    ("inline", "italic") => "font-style: italic".into(),
                    ("inline", "under") => "text-decoration: underline".into(),
                    ("class", "under") => "underline".into(),
                    (_, x) => x.to_string(),
                }).collect();
                match how { "inline" => r += &format!("<span style=\"{}\">", a.join("; ")), "class" => r += &format!("<span class=\"{}\">", a.join(" ")), _ => r += &format!("\x1b[0;{}m", a.join(";")) }
            }
            "close" => r += if how == "ansi" { "\x1b[0m" } else { "</span>" },
            "esc" => { r += match s(&e["c"]) { "lt" => "&lt;", "gt" => "&gt;", "amp" => "&amp;", "quot" => "&quot;", _ => "&#39;" }; n += 1 }
            _ => { r += &texts[n]; n += 1 }
        }
    }
    r
}
fn seg_value(x: &HighlightSegment) -> Value {
    let mut st = json!({"bold": x.style.bold, "italic": x.style.italic, "underline": x.style.underline});
    if let Some(c) = &x.style.color { st["color"] = json!(c) }
    if let Some(c) = &x.style.background_color { st["background_color"] = json!(c) }
    json!({"span": {"start": x.span.start, "end": x.span.end}, "style": st, "text": x.text})
}
/// Segments without text change nothing.
fn visible<'a, 'b>(r: &'a [HighlightSegment<'b>]) -> Vec<&'a HighlightSegment<'b>> { r.iter().filter(|x| !x.text.is_empty()).collect() }
fn compare(what: &str, got: &[HighlightSegment], want: &[HighlightSegment], src: &str) -> Result<(), String> {
    let g: Vec<Value> = visible(got).into_iter().map(seg_value).collect();
    let w: Vec<Value> = visible(want).into_iter().map(seg_value).collect();
    if g != w { return Err(format!("{what} of {src:?}: segments {}, expected {}", json!(g), json!(w))) }
    Ok(())
}
fn exact(what: &str, got: String, want: String) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what} gives {got:?}, expected {want:?}")) } }

fn one<const C: u8>(r: &Value, k: usize, shape: usize) -> Result<(), String> {
    let mut src = String::new();
    let (mut want, mut texts, mut owner, mut pieces): (Vec<HighlightSegment>, Vec<String>, Vec<usize>, Vec<(Option<u8>, usize)>) = Default::default();
    let mut lossy = false;
    for (i, (p, sg)) in arr(&r["pieces"]).iter().zip(arr(&r["segs"])).enumerate() {
        let t = letters(&p["text"], k + i);
        for (j, x) in arr(&p["text"]).iter().enumerate() { texts.push(letter(s(x), k + i + j)); owner.push(i) }
        let start = src.len();
        src += &t;
        pieces.push((if p["kind"] == "gap" { lossy = true; None } else { Some(kind(s(&p["kind"]))) }, t.len()));
        want.push(HighlightSegment { span: HighlightSpan { start, end: src.len() }, style: style(&sg["style"], k), text: t.into() });
    }
    let th = theme(&r["theme"], k);
    let styles: Vec<HighlightStyle> = want.iter().map(|x| x.style.clone()).collect();
    // the theme's answer for every piece
    for (p, sg) in arr(&r["pieces"]).iter().zip(&want) {
        let sc: Vec<String> = arr(&p["scopes"]).iter().map(scope).collect();
        let got = if sc.is_empty() { th.resolve_style("none") } else { th.resolve_styles(&sc) };
        if got != sg.style { return Err(format!("theme {} gives {sc:?} the style {got:?}, expected {:?}", r["theme"], sg.style)) }
    }
    // the visitor over a tree that holds the whole text
    let script = Scripted { pieces, shape };
    let text = SourceText::new(src.clone());
    if !lossy && lossless(shape) {
        let mut session = ParseSession::<Mini<C>>::new(1024);
        let out = Parser::<Mini<C>>::parse(&script, &text, &[], &mut session);
        let root = out.result.map_err(|e| format!("parse: {e:?}"))?;
        let mut v = HighlightVisitor { theme: &th, segments: vec![], source: &src };
        <HighlightVisitor as Visitor<Mini<C>>>::visit_node(&mut v, RedNode::new(root, 0));
        compare("the visitor", &v.segments, &want, &src)?;
    }
    // the highlighter with the themes it knows
    for t in [Theme::OneDarkPro, Theme::OneLight, Theme::Default] {
        let known = t.get_theme();
        let want: Vec<HighlightSegment> = want.iter().zip(arr(&r["pieces"])).map(|(w, p)| {
            let sc: Vec<String> = arr(&p["scopes"]).iter().map(scope).collect();
            HighlightSegment { style: if sc.is_empty() { known.resolve_style("none") } else { known.resolve_styles(&sc) }, ..w.clone() }
        }).collect();
        let got = OakHighlighter::new().highlight_with_language::<Mini<C>, _, _>(&src, t, &script, &script).map_err(|e| format!("highlight: {e:?}"))?;
        if got.source != src { return Err(format!("source is {:?}, expected {src:?}", got.source)) }
        compare("the highlighter", &got.segments, &want, &src)?;
    }
    // the exporters
    let res = HighlightResult { segments: want.clone(), source: src.clone().into() };
    for (how, inline) in [("inline", true), ("class", false)] {
        let body = format!("<div class=\"highlight\">{}</div>", render(&r[how], how, &texts, &styles, &owner));
        exact(how, HtmlExporter::new(false, inline).export(&res), body.clone())?;
        let whole = HtmlExporter::new(true, inline).export(&res);
        if !whole.starts_with("<style>\n") || whole.matches("</style>").count() != 1 || !whole.ends_with(&format!("</style>\n{body}")) { return Err(format!("{how} with styles gives {whole:?}")) }
    }
    exact("ansi", AnsiExporter.export(&res), render(&r["ansi"], "ansi", &texts, &styles, &owner))?;
    for pretty in [true, false] {
        let mut res = res.clone();
        if k % 5 == 0 { for x in &mut res.segments { if let Some(c) = &mut x.style.color { *c += "\"\\\n" } if let Some(c) = &mut x.style.background_color { *c += "\u{1}'" } } }
        let j = JsonExporter { pretty }.export(&res);
        let got: Value = serde_json::from_str(&j).map_err(|e| format!("json of {src:?}: {e}: {j:?}"))?;
        let w = json!({"segments": res.segments.iter().map(seg_value).collect::<Vec<_>>(), "source": src});
        if got != w { return Err(format!("json gives {j}, expected {w}")) }
    }
    // without a language
    for t in [Theme::OneDarkPro, Theme::OneLight, Theme::Default] {
        let h = OakHighlighter::new();
        let one = HighlightSegment { span: HighlightSpan { start: 0, end: src.len() }, style: t.get_theme().resolve_style("none"), text: src.clone().into() };
        let got = h.highlight(&src, "mini", t).map_err(|e| format!("{e:?}"))?;
        compare("highlight", &got.segments, &[one.clone()], &src)?;
        let r = HighlightResult { segments: got.segments.clone(), source: got.source.clone() };
        let f = |x| h.highlight_format(&src, "mini", t, x).map_err(|e| format!("{e:?}"));
        exact("html format", f(ExportFormat::Html)?, HtmlExporter::new(true, true).export(&r))?;
        exact("json format", f(ExportFormat::Json)?, JsonExporter { pretty: true }.export(&r))?;
        exact("ansi format", f(ExportFormat::Ansi)?, AnsiExporter.export(&r))?;
        exact("css format", f(ExportFormat::Css)?, CssExporter.export(&res))?;
    }
    Ok(())
}
fn main() {
    quiet_panics();
    let mut sum = Summary::new();
    for (n, r) in read_lines(&arg(2)).enumerate() {
        let k = n / 7 + n;
        let mut shapes = vec![n % SHAPES, (n / SHAPES + 3) % SHAPES];
        shapes.dedup();
        for shape in shapes {
            sum.evaluated += 1;
            let res = guard(|| match s(&r["cat"]) { "source" if k % 2 == 0 => one::<0>(&r, k, shape), "source" => one::<4>(&r, k, shape), "markup" => one::<1>(&r, k, shape), "config" => one::<2>(&r, k, shape), _ => one::<3>(&r, k, shape) });
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) => sum.bad(json!({"failed": e, "pieces": r["pieces"], "shape": shape})),
                Err(e) => sum.bad(json!({"panic": e, "pieces": r["pieces"], "shape": shape})),
            }
        }
        if n % 5000 == 0 { sum.sample(json!({"pieces": r["pieces"], "theme": r["theme"], "inline": r["inline"]})) }
    }
    sum.print();
}
