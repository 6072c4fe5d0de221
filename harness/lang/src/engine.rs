use crate::protocol::Job;
use oak_core::{GreenNode, GreenTree, Language, Lexer, Parser, SourceText, TokenType, parser::ParseSession};
use oak_highlight::{OakHighlighter, Theme};
use std::os::unix::fs::FileExt;
use vf_util::*;

fn leaves<L: Language>(n: &GreenNode<L>, out: &mut Vec<usize>) {
    for c in n.children.iter() {
        match c {
            GreenTree::Node(n) => leaves(n, out),
            GreenTree::Leaf(l) => out.push(l.length as usize),
        }
    }
}
/// Offsets of zero-length and one past: [start, end] pairs.
fn spans(lens: impl Iterator<Item = usize>) -> Vec<Value> {
    let mut at = 0;
    lens.filter(|n| *n > 0).map(|n| { at += n; json!([at - n, at]) }).collect()
}

/// The character where a list of pieces stops covering the text, to tell records apart that differ only in it.
fn breaks(t: &str, pieces: &[Value]) -> String {
    let mut at = 0;
    for p in pieces {
        let (s, e) = (u(&p[0]), u(&p[1]));
        if s != at || e <= s || !t.is_char_boundary(e.min(t.len())) { if s == at && e > s { at = e } break }
        at = e;
    }
    t.char_indices().take_while(|c| c.0 <= at).last().filter(|_| at < t.len()).map_or(String::new(), |c| c.1.to_string())
}
/// The character where the leaves of a tree stop being the tokens.
fn differ(t: &str, toks: &[Value], tree: &[Value]) -> String {
    let toks: Vec<_> = toks.iter().filter(|k| u(&k[0]) < u(&k[1])).collect();
    let n = toks.iter().zip(tree).take_while(|(k, l)| u(&k[1]) - u(&k[0]) == u(&l[1]) - u(&l[0])).count();
    match toks.get(n) {
        Some(k) => t.char_indices().take_while(|c| c.0 <= u(&k[0])).last().map_or(String::new(), |c| c.1.to_string()),
        None => String::new(),
    }
}
/// What a language does with each text: its tokens, the leaves of its tree, its highlighted segments.
pub fn run_language<L: Language + Send + Sync + 'static, X: Lexer<L>, P: Parser<L>>(lexer: &X, parser: &P, job: &mut Job)
where L::ElementType: From<L::TokenType> {
    for (i, t) in job.texts.clone().iter().enumerate().skip(job.from) {
        job.progress.write_all_at(format!("{i:12}").as_bytes(), 0).unwrap();
        let src = SourceText::new(t.clone());
        let lexed = guard(|| {
            let mut s = ParseSession::<L>::new(16);
            lexer.lex(&src, &[], &mut s).result.map(|ts| ts.iter().map(|k| json!([k.span.start, k.span.end, if k.kind == L::TokenType::END_OF_STREAM && k.span.start == k.span.end { 1 } else { 0 }])).collect::<Vec<_>>())
        });
        // "none": the lexer reports an error instead of tokens
        let (toks, lex) = match lexed { Ok(Ok(v)) => (v, "tokens"), Ok(Err(_)) => (vec![], "none"), Err(_) => (vec![], "panic") };
        let cuts: Vec<usize> = t.char_indices().map(|x| x.0).filter(|x| *x > 0).collect();
        if job.only_lex {
            job.put(i, json!({"lang": job.lang, "len": t.len(), "cuts": cuts, "toks": toks, "lex": lex, "break": breaks(t, &toks)}), t);
            continue;
        }
        let tree = guard(|| {
            let mut s = ParseSession::<L>::new(16);
            let p = parser.parse(&src, &[], &mut s);
            p.result.ok().map(|r| { let mut v = vec![]; leaves(r, &mut v); (spans(v.into_iter()), r.text_len() as usize) })
        });
        let (tree, parse) = match tree { Ok(Some((v, n))) if spans_len(&v) == n => (v, "tree"), Ok(Some(_)) => (vec![], "sum"), Ok(None) => (vec![], "none"), Err(_) => (vec![], "panic") };
        let hl = if lex == "panic" || parse == "panic" { Ok(None) } else {
            guard(|| OakHighlighter::new().highlight_with_language::<L, P, X>(t, Theme::Default, parser, lexer).ok().map(|r| {
                let same = r.source == *t && r.segments.iter().all(|x| t.get(x.span.start..x.span.end) == Some(&*x.text));
                (r.segments.iter().filter(|x| x.span.start < x.span.end).map(|x| json!([x.span.start, x.span.end])).collect::<Vec<_>>(), same)
            }))
        };
        let (segs, high) = match hl { Ok(Some((v, true))) => (v, "segments"), Ok(Some((_, false))) => (vec![], "text"), Ok(None) => (vec![], "none"), Err(_) => (vec![], "panic") };
        job.put(i, json!({"lang": job.lang, "len": t.len(), "cuts": cuts, "toks": toks, "lex": lex, "tree": tree, "parse": parse, "segs": segs, "high": high, "break": breaks(t, &segs), "differ": differ(t, &toks, &tree)}), t);
    }
}
fn spans_len(v: &[Value]) -> usize { v.last().map_or(0, |x| u(&x[1])) }
