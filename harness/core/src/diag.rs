//! How errors travel and what renderings show of them: replay of the Diagnostics specification.
#![feature(new_range_api)]
mod lang;
mod letters;
use core::range::Range;
use lang::*;
use letters::*;
use oak_core::{
    Arc, OakError,
    errors::{OakDiagnostics, OakErrorKind},
    lexer::{LexerState, Token},
    memory::arena::SyntaxArena,
    parser::ParserState,
    source::*,
};
use oak_diagnostic::*;
use vf_util::*;

fn facts(e: &OakError) -> (&'static str, Option<usize>, Option<SourceId>) {
    use OakErrorKind::*;
    match e.kind() {
        IoError { source_id, .. } => ("io", None, *source_id),
        SyntaxError { offset, source_id, .. } => ("syntax", Some(*offset), *source_id),
        UnexpectedCharacter { offset, source_id, .. } => ("char", Some(*offset), *source_id),
        UnexpectedToken { offset, source_id, .. } => ("token", Some(*offset), *source_id),
        UnexpectedEof { offset, source_id } => ("eof", Some(*offset), *source_id),
        ExpectedToken { offset, source_id, .. } => ("expected", Some(*offset), *source_id),
        ExpectedName { offset, source_id, .. } => ("name", Some(*offset), *source_id),
        TrailingCommaNotAllowed { offset, source_id } => ("comma", Some(*offset), *source_id),
        InternalError { .. } => ("internal", None, None),
        _ => ("custom", None, None),
    }
}
fn source(text: &str, src: u32) -> SourceText { if src == 0 { SourceText::new(text.to_string()) } else { SourceText::new_with_id(text.to_string(), src) } }
/// One-character tokens over the text, as a lexer would deliver them, and the diagnostics given.
fn lexed(t: &Text, diagnostics: Vec<OakError>) -> oak_core::lexer::LexOutput<Mini> {
    let mut v: Vec<Token<T>> = (0..t.off.len() - 1).map(|k| Token { kind: T(3), span: (t.off[k]..t.off[k + 1]).into() }).collect();
    v.push(Token { kind: EOF, span: (t.s.len()..t.s.len()).into() });
    OakDiagnostics { result: Ok(v.into()), diagnostics }
}
/// Every way an error of this kind can come into being at this place.
fn create(kind: &str, pos: usize, off: usize, src: u32, t: &Text) -> Vec<(String, OakError)> {
    let id = if src == 0 { None } else { Some(src) };
    let mut v = vec![];
    let mut add = |n: &str, e: OakError| v.push((n.to_string(), e));
    let text = source(&t.s, src);
    match kind {
        "syntax" => {
            add("OakError", OakError::syntax_error("m", off, id));
            add("SourceText", text.syntax_error("m", off));
            add("Source", Source::syntax_error(&&text, "m".into(), off));
            add("RopeSource", Source::syntax_error(&RopeBuffer::new_with_id(&t.s, id).snapshot(), "m".into(), off));
        }
        "char" => { add("OakError", OakError::unexpected_character('z', off, id)); add("SourceText", text.unexpected_character('z', off)) }
        "token" => add("OakError", OakError::unexpected_token("z", off, id)),
        "eof" => add("OakError", OakError::unexpected_eof(off, id)),
        "expected" => { add("OakError", OakError::expected_token("z", off, id)); add("SourceText", text.expected_token("z", off)) }
        "name" => { add("OakError", OakError::expected_name("z", off, id)); add("SourceText", text.expected_name("z", off)) }
        "comma" => { add("OakError", OakError::trailing_comma_not_allowed(off, id)); add("SourceText", text.trailing_comma_not_allowed(off)) }
        "io" => { let io = std::io::Error::other("z"); add("OakError", OakError::new(OakErrorKind::IoError { error: io, source_id: id })) }
        "custom" => {
            let all: [(&str, fn(&str) -> OakError); 13] = [("custom", |m| OakError::custom_error(m)), ("theme", |m| OakError::invalid_theme(m)), ("format", |m| OakError::unsupported_format(m)), ("color", |m| OakError::color_parse_error(m)), ("formatting", |m| OakError::format_error(m)),
                ("semantic", |m| OakError::semantic_error(m)), ("protocol", |m| OakError::protocol_error(m)), ("serde", |m| OakError::serde_error(m)), ("deserialize", |m| OakError::deserialize_error(m)), ("xml", |m| OakError::xml_error(m)), ("zip", |m| OakError::zip_error(m)), ("parse", |m| OakError::parse_error(m)),
                ("test", |m| OakError::test_failure(m.into(), "x".into(), "y".into()))];
            for (n, f) in all { add(n, f("z<1>")) }
            add("regenerated", OakError::test_regenerated("p".into()))
        }
        "internal" => add("OakError", OakError::internal_error("z")),
        x => panic!("kind {x}"),
    }
    // Raised by a parser standing on the token at this place.
    if pos < t.off.len() && (kind != "eof" || pos == t.off.len() - 1) {
        let arena = SyntaxArena::new(4096);
        let mut st = ParserState::<Mini, SourceText>::new(&arena, lexed(t, vec![]), &text, 16);
        for _ in 0..pos { st.bump() }
        let mut direct = None;
        match kind {
            "syntax" => direct = Some(st.syntax_error("m")),
            "token" => st.record_unexpected_token("z"),
            "expected" => { if off % 2 == 0 { direct = st.expect(T(9)).err() } else { st.record_expected("z") } }
            "name" => st.record_expected_name("z"),
            "comma" => st.record_trailing_comma_not_allowed(),
            "eof" => { if src == 0 { st.record_unexpected_eof() } else { direct = Some(st.unexpected_eof()) } }
            _ => return v,
        }
        let out = st.finish(Err(OakError::custom_error("stop")));
        add("ParserState", out.diagnostics.last().expect("recorded").clone());
        if let Some(e) = direct { add("ParserState (returned)", e) }
    }
    v
}
fn copies(e: &OakError, t: &Text) -> Vec<(&'static str, OakError)> {
    let mut v = vec![("clone", e.clone()), ("kind clone", OakError::new(e.kind().clone()))];
    let text = source(&t.s, 3);
    let mut lx = LexerState::<SourceText, Mini>::new(&text);
    lx.add_error(e.clone());
    let out = lx.finish(Ok(()));
    v.push(("lexer state", out.diagnostics[0].clone()));
    let arena = SyntaxArena::new(4096);
    let st = ParserState::<Mini, SourceText>::new(&arena, OakDiagnostics { result: Err(e.clone()), diagnostics: vec![e.clone()] }, &text, 16);
    let out = st.finish(Err(e.clone()));
    for d in &out.diagnostics { v.push(("parser state", d.clone())) }
    if out.diagnostics.len() != 2 { v.push(("parser state lost diagnostics", OakError::custom_error("lost"))) }
    v.push(("result", out.result.err().unwrap()));
    v
}
fn strip(s: &str, html: bool) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' { for c in it.by_ref() { if c == 'm' { break } } } else if html && c == '<' { for c in it.by_ref() { if c == '>' { break } } } else { out.push(c) }
    }
    if html { out = out.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#39;", "'").replace("&amp;", "&"); }
    out
}
const URI: &str = "file:///so&me/fi'le<1>.x";
/// What the renderings show of the labels, against what the specification says they show. The text stands after `above` lines.
fn shown<S: Source + ?Sized>(src: &S, d: &Diagnostic, shows: &[&Value], t: &Text, exact: bool, above: usize) -> Result<(), String> {
    let lsp: Value = serde_json::from_str(&LspEmitter.render_localized::<S, ()>(src, d, None, Some(URI))).map_err(|e| e.to_string())?;
    let at = |v: &Value| (u(&v["line"]), u(&v["character"]));
    let ends = |show: &Value| ((above + u(&show["from"]["line"]), u(&show["from"]["col16"])), (above + u(&show["to"]["line"]), u(&show["to"]["col16"])));
    let mut ranges = vec![("range".to_string(), &lsp["range"], ends(shows[0]))];
    let told: Vec<usize> = (0..shows.len()).filter(|k| d.labels[*k].message.is_some()).collect();
    if arr(&lsp["relatedInformation"]).len() != told.len() { return Err(format!("language server: {} related places, expected {}", arr(&lsp["relatedInformation"]).len(), told.len())) }
    for (r, k) in arr(&lsp["relatedInformation"]).iter().zip(told) {
        ranges.push((format!("related range {k}"), &r["location"]["range"], ends(shows[k])));
        if r["location"]["uri"] != URI { return Err(format!("related uri {}", r["location"]["uri"])) }
    }
    for (what, r, (f, e)) in ranges {
        if at(&r["start"]) != f { return Err(format!("language server {what} starts at {:?}, expected {f:?}", at(&r["start"]))) }
        let got = at(&r["end"]);
        if got != e && (exact || got != f) { return Err(format!("language server {what} ends at {got:?}, expected {e:?}")) }
    }
    for unicode in [false, true] {
        let outs = [("console", ConsoleEmitter { unicode }.render_localized::<S, ()>(src, d, None, Some(URI)), false), ("plain", PlainTextEmitter { unicode }.render_localized::<S, ()>(src, d, None, Some(URI)), false), ("html", HtmlEmitter.render_localized::<S, ()>(src, d, None, Some(URI)), true)];
        for (name, out, html) in outs {
            let out = strip(&out, html);
            let rows: Vec<&str> = out.split('\n').collect();
            // one section for each label, in order
            let starts: Vec<usize> = (0..rows.len()).filter(|k| rows[*k].contains(&format!("at {URI}:"))).collect();
            if starts.len() != shows.len() { return Err(format!("{name} shows {} labels, expected {}: {out:?}", starts.len(), shows.len())) }
            for (k, show) in shows.iter().enumerate() {
                let end = starts.get(k + 1).copied().unwrap_or(rows.len());
                section(name, &rows[starts[k]..end], show, t, exact, above).map_err(|e| format!("{e}: {out:?}"))?;
            }
        }
    }
    Ok(())
}
fn section(name: &str, rows: &[&str], show: &Value, t: &Text, exact: bool, above: usize) -> Result<(), String> {
    let (from, to) = (&show["from"], &show["to"]);
    let line = above + u(&from["line"]);
    let head = format!("at {URI}:{}:{}", line + 1, u(&from["col"]) + 1);
    if !rows[0].ends_with(&head) { return Err(format!("{name} does not say {head:?}")) }
    // Rows with a line number show that line.
    let lines = arr(&show["lines"]);
    let mut seen = vec![];
    for (k, row) in rows.iter().enumerate().skip(1) {
        let row_t = row.trim_start();
        let digits: String = row_t.chars().take_while(|c| c.is_ascii_digit()).collect();
        let Some(n) = digits.parse::<usize>().ok() else { continue };
        if n < line + 1 || n - 1 - line >= lines.len() { return Err(format!("{name} shows line {n}")) }
        let l = &lines[n - 1 - line];
        let want = &t.s[t.off[u(&l["s"])]..t.off[u(&l["e"])]];
        if !row.ends_with(want) || want.is_empty() && !row.trim_end().ends_with(['|', '\u{2502}', '/', '\u{250c}']) { return Err(format!("{name} shows {row:?} for line {n}, expected {want:?}")) }
        seen.push((n, k, want));
    }
    // only a line after the last line break may have nothing to show
    let due = lines.iter().filter(|l| u(&l["s"]) < t.off.len() - 1).count();
    if seen.len() < due || seen.iter().enumerate().any(|(k, x)| x.0 != line + 1 + k) { return Err(format!("{name} shows the lines {:?}, expected {due}", seen.iter().map(|x| x.0).collect::<Vec<_>>())) }
    // A label within one line is underlined under exactly its characters.
    if lines.len() == 1 {
        let Some((_, k, want)) = seen.last() else { return Ok(()) };
        let indent = rows[*k].chars().count() - want.chars().count();
        let under: Vec<char> = rows[k + 1].chars().collect();
        let first = under.iter().position(|c| *c == '^').map(|p| p as i64 - indent as i64);
        let count = under.iter().filter(|c| **c == '^').count();
        let (a, b) = (u(&from["col"]), u(&to["col"]));
        let n = (b - a).max(1);
        if first != Some(a as i64) || (count != n && (exact || count != 1)) { return Err(format!("{name} underlines {count} characters from {first:?}, expected {n} from {a}")) }
    }
    Ok(())
}
struct Translated;
impl Localizer for Translated {
    fn localize(&self, key: &str, args: &std::collections::HashMap<String, String>) -> String {
        let mut v: Vec<_> = args.iter().collect();
        v.sort();
        format!("T<{key}> & {v:?}")
    }
}
/// Renderings say the message (translated, if there is someone to do it and something to go by), the code or else the severity, and the help.
fn said<S: Source + ?Sized>(src: &S, d: &Diagnostic) -> Result<(), String> {
    let sev = match d.severity { Severity::Error => ("error", 1), Severity::Warning => ("warning", 2), Severity::Advice => ("advice", 3) };
    for translate in [false, true] {
        let loc = if translate { Some(&Translated) } else { None };
        let message = match &d.i18n_key { Some(k) if translate => Translated.localize(k, &d.i18n_args), _ => d.message.clone() };
        let uri = if d.labels.len() % 2 == 0 { None } else { Some(URI) };
        let lsp: Value = serde_json::from_str(&LspEmitter.render_localized(src, d, loc, uri)).map_err(|e| e.to_string())?;
        if s(&lsp["message"]) != message || i(&lsp["severity"]) != sev.1 || s(&lsp["code"]) != d.code.clone().unwrap_or_default() { return Err(format!("language server says {lsp}, expected {message:?}, {sev:?}, {:?}", d.code)) }
        let outs = [("console", ConsoleEmitter { unicode: translate }.render_localized(src, d, loc, uri), false), ("plain", PlainTextEmitter { unicode: translate }.render_localized(src, d, loc, uri), false), ("html", HtmlEmitter.render_localized(src, d, loc, uri), true)];
        for (name, out, html) in outs {
            let out = strip(&out, html);
            let first = out.split('\n').find(|r| !r.trim().is_empty()).unwrap_or("");
            let tag = format!("[{}]", d.code.as_deref().unwrap_or(sev.0));
            if !first.contains(&tag) || !first.contains(&message) { return Err(format!("{name} says {first:?}, expected {tag} and {message:?}")) }
            let help: Vec<&str> = out.split('\n').filter(|r| r.trim_start().starts_with("help")).collect();
            let want: Vec<String> = d.help.iter().map(|h| format!("help: {h}")).collect();
            if help.iter().map(|h| h.trim().to_string()).collect::<Vec<_>>() != want { return Err(format!("{name} gives the help {help:?}, expected {want:?}")) }
        }
    }
    for (a, b) in [(LspEmitter.render(src, d), LspEmitter.render_localized::<S, ()>(src, d, None, None)), (HtmlEmitter.render(src, d), HtmlEmitter.render_localized::<S, ()>(src, d, None, None))] {
        if a != b { return Err(format!("render says {a:?}, expected {b:?}")) }
    }
    Ok(())
}
fn render(t: &Text, src: u32, f: &dyn Fn(&dyn Source) -> Result<(), String>) -> Result<(), String> {
    let id = if src == 0 { None } else { Some(src) };
    f(&source(&t.s, src)).map_err(|e| format!("SourceText: {e}"))?;
    f(&RopeBuffer::new_with_id(&t.s, id).snapshot()).map_err(|e| format!("RopeSource: {e}"))?;
    let mut c = ChunkedBuffer::new_with_id(id);
    for w in t.off.windows(2) { c.push_str(&t.s[w[0]..w[1]]) }
    f(&c.snapshot()).map_err(|e| format!("ChunkedSource: {e}"))
}
fn errors(h: &Value, steps: &mut usize) -> Result<(), String> {
    let t = text(&h["text"], 1);
    let off = |at: &Value| { let at = i(at); if at < 0 { None } else if at as usize >= t.off.len() { Some(t.s.len() + 3) } else { Some(t.off[at as usize]) } };
    let mut cur: Vec<(String, OakError)> = vec![];
    for o in arr(&h["ops"]) {
        *steps += 1;
        match s(&o["op"]) {
            "create" => { let k = s(&o["kind"]); let at = u(&o["at"]); cur = create(k, at, off(&o["at"]).unwrap_or(0), u(&o["src"]) as u32, &t) }
            "attach" => cur = cur.into_iter().map(|(n, e)| (n + ".with_source_id", e.with_source_id(u(&o["src"]) as u32))).collect(),
            "copy" => cur = cur.into_iter().flat_map(|(n, e)| copies(&e, &t).into_iter().map(move |(c, x)| if (e.to_string(), e.kind().key()) == (x.to_string(), x.kind().key()) { (format!("{n}, {c}"), x) } else { (format!("{n}, {c} (it says {x} instead of {e})"), OakError::new(OakErrorKind::IoError { error: std::io::Error::other("changed"), source_id: Some(99) })) }).collect::<Vec<_>>()).collect(),
            x => panic!("op {x}"),
        }
        let e = &o["err"];
        let want = (s(&e["kind"]), off(&e["at"]), match u(&e["src"]) { 0 => None, x => Some(x as u32) });
        for (n, got) in &cur { if facts(got) != want { return Err(format!("{n}: {:?}, expected {want:?}", facts(got))) } }
    }
    for (n, e) in &cur {
        let label = h["label"].as_array().filter(|l| !l.is_empty());
        render(&t, 7, &|src| {
            for d in [e.to_diagnostic(src), Diagnostic::from_provider(e, src)] {
                let told: Vec<(&str, &str)> = match e.kind().key() { k if d.i18n_key.as_deref() == Some(k) && d.code.as_deref() == Some(k) => d.i18n_args.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect(), k => return Err(format!("{n}: code {:?}, key {:?}, expected {k}", d.code, d.i18n_key)) };
                let named = match e.kind() { OakErrorKind::UnexpectedToken { token, .. } => Some(("token", token.as_str())), OakErrorKind::ExpectedToken { expected, .. } => Some(("expected", expected.as_str())), OakErrorKind::ExpectedName { name_kind, .. } => Some(("name_kind", name_kind.as_str())), _ => None };
                if named.is_some_and(|x| !told.contains(&x)) || d.message != e.kind().to_string() || d.severity != Severity::Error || d.help.is_some() { return Err(format!("{n}: the diagnostic is {d:?}")) }
                said(src, &d).map_err(|e| format!("{n}: {e}"))?;
                let Some(l) = label else { if d.labels.is_empty() { continue } else { return Err("a label on an error without a place".into()) } };
                if d.labels.len() != 1 { return Err(format!("{n}: {} labels, expected 1", d.labels.len())) }
                let l = &l[0];
                let b = |p: &Value| t.off[u(&p["pos"])];
                let sp = d.labels[0].span;
                if sp.start != b(&l["from"]) || (sp.end != b(&l["to"]) && sp.end != sp.start) { return Err(format!("{n}: label {}..{}, expected {}..{}", sp.start, sp.end, b(&l["from"]), b(&l["to"]))) }
                let back: Diagnostic = serde_json::from_str(&serde_json::to_string(&d).unwrap()).map_err(|e| e.to_string())?;
                if back.labels.len() != 1 || back.labels[0].span != sp || back.message != d.message || back.code != d.code { return Err(format!("{n}: the diagnostic changes when stored")) }
                shown(src, &d, &[l], &t, false, 0).map_err(|e| format!("{n}: {e}"))?;
            }
            Ok(())
        })?;
    }
    Ok(())
}
fn labels(h: &Value, steps: &mut usize, variant: usize) -> Result<(), String> {
    let mut t = text(&h["text"], 1);
    // The lines above, and characters that mean something in HTML.
    let above = [0, 8, 9, 98, 99][variant % 5];
    t.s = t.s.replace('a', ["a", "<", "&", ">"][variant % 4]);
    let top: String = (0..above).map(|k| format!("{}\n", ["", "x", "\u{1f600}y"][k % 3])).collect();
    let whole = Text { s: format!("{top}{}", t.s), off: [vec![0], t.off.iter().map(|o| o + top.len()).collect()].concat() };
    let spans = arr(&h["spans"]);
    let span = |sp: &Value| Range { start: top.len() + t.off[u(&sp["s"])], end: top.len() + t.off[u(&sp["e"])] };
    render(&whole, 0, &|src| {
        for (k, sp) in spans.iter().enumerate() {
            let mut d = if (k + variant) % 3 == 1 { Diagnostic::warning("m") } else { Diagnostic::error("m") };
            if (k + variant) % 3 == 2 { d.severity = Severity::Advice }
            if k % 2 == 1 { d = d.with_help("<look>") }
            if k % 3 == 1 { d = d.with_code("E<7>").with_arg("b", "2").with_arg("a", "<1>") }
            if k % 4 < 2 { d = d.with_i18n("some.key") }
            said(src, &d)?;
            d = d.with_label(span(sp), "here");
            said(src, &d)?;
            shown(src, &d, &[&sp["show"]], &t, true, above).map_err(|e| format!("span {}..{} after {above} lines: {e}", sp["s"], sp["e"]))?;
            // a second and third label
            let others = [&spans[(k * 7 + variant) % spans.len()], &spans[(k * 5 + 3) % spans.len()]];
            d.labels.push(Label { message: None, span: span(others[0]), color: Some("\u{1b}[32m".into()) });
            d = d.with_label(span(others[1]), "there");
            if k % 4 == 2 { d.labels[0].message = None }
            shown(src, &d, &[&sp["show"], &others[0]["show"], &others[1]["show"]], &t, true, above).map_err(|e| format!("span {}..{} of three after {above} lines: {e}", sp["s"], sp["e"]))?;
        }
        Ok(())
    })?;
    *steps += spans.len();
    Ok(())
}
fn main() {
    quiet_panics();
    let (mode, path) = (arg(1), arg(2));
    let mut sum = Summary::new();
    let mut steps = 0;
    for (k, h) in read_lines(&path).enumerate() {
        sum.evaluated += 1;
        set_variant(k);
        let r = guard(|| match mode.as_str() { "errors" => errors(&h, &mut steps), "labels" => labels(&h, &mut steps, k), m => panic!("mode {m}") });
        if let Err(e) = r.and_then(|r| r) { sum.bad(json!({"what": e, "text": h["text"], "ops": h.get("ops")})) }
        if k < 2 { sum.sample(h) }
    }
    sum.extra.insert("steps".into(), json!(steps));
    sum.print();
}
