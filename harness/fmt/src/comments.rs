//! Comments: replay of the Comments specification.
use oak_pretty_print::comment::*;
use oak_pretty_print::{FormatConfig, FormatContext};
use crate::mini::Mini;
use vf_util::*;

/// Words of the specification stand for words of any length and script.
fn words(v: &Value, k: usize) -> String {
    arr(v).iter().map(|x| match s(x) { "/" => "\n", "a" => ["a", "int x = 1;", "\u{6ce8}\u{91ca}", "-"][k % 4], "b" => ["b", "\u{e9}", "b:", "\u{1f600}"][k / 2 % 4], "t" => ["\t", "\r", "\u{a0}", "\u{3000}"][k / 3 % 4], x => x }).collect()
}
fn text(v: &Value) -> String { words(v, 0) }
fn at(offset: usize) -> Position { Position { line: 0, column: offset, offset } }
fn comment(kind: &str, content: String, start: usize, end: usize) -> Comment {
    let span = SourceSpan { start: at(start), end: at(end) };
    match kind { "line" => Comment::line(content, span), "doc" => Comment::doc(content, span), _ => Comment::block(content, span) }
}
fn processor(form: bool) -> CommentProcessor { if form { CommentProcessor::new() } else { CommentProcessor::new().with_format_comments(false) } }

/// Comments of every kind with the given text, as formatters write them.
pub fn texts(path: &str) {
    let mut sum = Summary::new();
    for (n, r) in read_lines(path).enumerate() {
        for f in arr(&r["forms"]) {
            sum.evaluated += 1;
            let (raw, flat, within) = (words(&f["raw"], n), words(&f["flat"], n), words(&f["in"], n));
            let c = comment(s(&f["k"]), words(&r["text"], n), 0, raw.len());
            let got = guard(|| {
                let all = [c.clone(), c.clone().with_trailing(true).with_indent_level(n % 3)];
                let as_is = |x: &str| vec![x.to_string(); 2];
                (c.original_text() == raw, c.formatted_text("") == flat, c.formatted_text("  ") == within,
                 processor(true).process_comments(&all, "  ") == as_is(&within), processor(false).process_comments(&all, "  ") == as_is(&raw),
                 processor(true).with_preserve_comments(false).process_comments(&all, "").is_empty())
            });
            if got != Ok((true, true, true, true, true, true)) {
                sum.bad(json!({"comment": format!("{c:?}"), "as written, formatted, indented, processed, unformatted, dropped": format!("{got:?}"),
                               "formatted": guard(|| c.formatted_text("  ")).unwrap_or_default(), "expected": within}))
            }
            if n % 5000 == 0 { sum.sample(json!({"comment": raw, "formatted": within})) }
        }
    }
    sum.print();
}

fn ids(found: Vec<&Comment>) -> Vec<usize> { found.iter().map(|c| c.indent_level).collect() }
fn want(v: &Value) -> Vec<usize> { arr(v).iter().map(u).collect() }

fn history(r: &Value) -> Result<(), String> {
    let mut p = CommentProcessor::new();
    for op in arr(&r["hist"]) {
        match s(&op["op"]) {
            "add" => {
                let c = &op["c"];
                let trailing = c["trailing"].as_bool().unwrap();
                // the indentation level of a comment tells it from the others
                p.collector_mut().add_comment(comment(s(&c["k"]), text(&c["s"]), u(&c["start"]), u(&c["end"])).with_trailing(trailing).with_indent_level(u(&c["id"])))
            }
            "sort" => p.collector_mut().sort_by_position(),
            "clear" => p.collector_mut().clear(),
            _ => {
                let (keep, form) = (op["keep"].as_bool().unwrap(), op["form"].as_bool().unwrap());
                p = p.with_preserve_comments(keep).with_format_comments(form);
                let settings = FormatConfig { format_comments: form, ..Default::default() };
                let context = FormatContext::<Mini>::new(settings);
                let got = context.comment_processor.process_comments(&[comment("line", "  a".into(), 0, 5)], "");
                if got != [if form { "// a" } else { "//  a" }] { return Err(format!("comments of a formatter with format_comments = {form}: {got:?}")) }
            }
        }
    }
    let c = p.collector();
    let check = |what: String, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{what}: {got}, expected {want}")) };
    check("comments".into(), format!("{:?}", ids(c.comments().iter().collect())), format!("{:?}", want(&r["held"])))?;
    check("trailing comments".into(), format!("{:?}", ids(c.trailing_comments())), format!("{:?}", want(&r["trailing"])))?;
    check("processed".into(), format!("{:?}", p.process_comments(c.comments(), "  ")), format!("{:?}", arr(&r["processed"]).iter().map(text).collect::<Vec<_>>()))?;
    for x in arr(&r["at"]) {
        let place = u(&x["p"]);
        check(format!("comments before {place}"), format!("{:?}", ids(c.comments_before(at(place)))), format!("{:?}", want(&x["before"])))?;
        check(format!("comments after {place}"), format!("{:?}", ids(c.comments_after(at(place)))), format!("{:?}", want(&x["after"])))?;
        let (mut inserted, mut tail) = ("x\n".to_string(), "x".to_string());
        p.insert_comments_at_position(&mut inserted, at(place), "  ");
        p.insert_trailing_comment(&mut tail, at(place));
        check(format!("comments inserted at {place}"), inserted, format!("x\n{}", text(&x["inserted"])))?;
        check(format!("trailing comment inserted at {place}"), tail, format!("x{}", text(&x["tail"])))?;
    }
    for x in arr(&r["ranges"]) {
        let (a, b) = (u(&x["a"]), u(&x["b"]));
        check(format!("comments in {a}..{b}"), format!("{:?}", ids(c.comments_in_range(at(a), at(b)))), format!("{:?}", want(&x["ids"])))?;
    }
    Ok(())
}

/// A collector of comments, filled, sorted and emptied.
pub fn held(path: &str) {
    let mut sum = Summary::new();
    for (n, r) in read_lines(path).enumerate() {
        sum.evaluated += 1;
        if let Err(e) = guard(|| history(&r)).unwrap_or_else(|e| Err(format!("panic: {e}"))) { sum.bad(json!({"history": r["hist"], "what": e})) }
        if n % 5000 == 0 { sum.sample(r["hist"].clone()) }
    }
    sum.print();
}
