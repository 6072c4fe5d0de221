//! Edit histories over the small language: resumed lexing and incremental parsing.
#![feature(new_range_api)]
mod lang;
mod letters;
mod mini;
use core::range::Range;
use lang::*;
use letters::{Text, set_variant, text};
use mini::*;
use oak_core::{Lexer, Parser, parser::{ParseCache, ParseSession}, source::*};
use vf_util::*;

fn batch(st: &Value, cur: &Text) -> Vec<TextEdit> {
    arr(&st["edits"]).iter().map(|e| TextEdit { span: Range { start: cur.off[u(&e["s"])], end: cur.off[u(&e["e"])] }, text: text(&e["r"], 1).s.into() }).collect()
}
fn want_tokens(st: &Value, t: &Text) -> Vec<(u32, usize, usize)> {
    arr(&st["toks"]).iter().map(|z| (u(&z["k"]) as u32, t.off[u(&z["s"])], t.off[u(&z["e"])])).collect()
}
/// The expected tree; without blanks the leaves for white space and their lengths are left out.
fn want_tree(v: &Value, t: &Text, at: &mut usize, blanks: bool) -> Option<Plan> {
    if let Some(k) = v.get("n") {
        let c: Vec<_> = arr(&v["c"]).iter().filter_map(|c| want_tree(c, t, at, blanks)).collect();
        Some(Plan::Node(u(k) as u32, c.iter().map(Plan::len).sum(), c))
    } else {
        let start = *at;
        *at += u(&v["l"]);
        if !blanks && u(&v["k"]) == WS.0 as usize { return None; }
        Some(Plan::Leaf(u(&v["k"]) as u32, t.off[*at] - t.off[start]))
    }
}
fn short(h: &[Value]) -> Value { h.iter().map(|x| json!({"edits": x["edits"], "text": x["text"]})).collect() }

fn lexing(path: &str, seed: u64) {
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed);
    let (mut resumed, mut n) = (0usize, 0usize);
    for h in read_lines(path) {
        sum.evaluated += 1;
        set_variant(sum.evaluated);
        let h = arr(&h);
        for resume in [Resume::Always, Resume::Early] {
            for blanks in [true, false] {
                let slice = rng.chance(1, 2);
                let rope = rng.chance(1, 2);
                let mut session = ParseSession::<Mini>::new(4);
                let mut plain = Plain::default();
                let mut cur = text(&h[0]["text"], 1);
                let want = |st: &Value, t: &Text| -> Vec<_> { want_tokens(st, t).into_iter().filter(|z| blanks || z.0 != WS.0).collect() };
                let mut src = SourceText::new(cur.s.clone());
                let mut rp = RopeBuffer::new(&cur.s);
                for (k, st) in h.iter().enumerate() {
                    let lexer = MiniLexer { resume, back: if rng.chance(1, 4) { rng.below(4) } else { 0 }, blanks, report: rng.chance(2, 3), refuse: k + 1 < h.len() && rng.chance(1, 12) };
                    let mut lexer = lexer;
                    let edits = if k == 0 { vec![] } else { batch(st, &cur) };
                    let t = text(&st["text"], 1);
                    if k > 0 {
                        src.apply_edits(&edits);
                        rp.apply_edits(&edits);
                        // a position before the first edit, still at a character boundary
                        if let Some(p) = edits.iter().map(|e| e.span.start).min() { while lexer.back > p || !t.s.is_char_boundary(p - lexer.back) { lexer.back -= 1; } }
                    }
                    let r = guard(|| {
                        let out = match (slice, rope) {
                            (true, false) => lexer.lex(&src, &edits, &mut session),
                            (true, true) => lexer.lex(&rp, &edits, &mut session),
                            (false, false) => lexer.lex(&src, &edits, &mut plain),
                            (false, true) => lexer.lex(&rp, &edits, &mut plain),
                        };
                        if lexer.refuse { return if out.result.is_err() { Ok(()) } else { Err("the lexer's error is lost".into()) } }
                        let got: Vec<_> = out.result.map_err(|e| format!("{e:?}"))?.iter().map(|t| (t.kind.0, t.span.start, t.span.end)).collect();
                        let w = want(st, &t);
                        if got != w { return Err(format!("tokens {got:?} instead of {w:?}")); }
                        Ok(())
                    });
                    n += 1;
                    if k > 0 && edits.iter().all(|e| e.span.start > 2) { resumed += 1; }
                    if let Err(m) | Ok(Err(m)) = r {
                        sum.bad(json!({"what": m, "step": k, "resume": format!("{resume:?}"), "slice_cache": slice, "rope": rope, "blanks": blanks, "behaviour": short(h)}));
                        break;
                    }
                    cur = t;
                }
            }
        }
        if sum.evaluated % 5000 == 3 { sum.sample(short(h)); }
    }
    sum.extra.insert("lexings".into(), json!(n));
    sum.extra.insert("resumed".into(), json!(resumed));
    sum.print();
}

fn trees(path: &str, seed: u64) {
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed);
    let (mut reused, mut parses) = (0usize, 0usize);
    for h in read_lines(path) {
        sum.evaluated += 1;
        set_variant(sum.evaluated);
        let h = arr(&h);
        let parser = MiniParser { lexer: MiniLexer { resume: if rng.chance(1, 2) { Resume::Always } else { Resume::Early }, blanks: !rng.chance(1, 4), ..Default::default() }, ..Default::default() };
        parser.eof.set(rng.chance(1, 3));
        let rope = rng.chance(1, 3);
        let mut session = ParseSession::<Mini>::new(4);
        let mut cur = text(&h[0]["text"], 1);
        let mut src = SourceText::new(cur.s.clone());
        let mut rp = RopeBuffer::new(&cur.s);
        for (k, st) in h.iter().enumerate() {
            let edits = if k == 0 { vec![] } else { batch(st, &cur) };
            let t = text(&st["text"], 1);
            if k > 0 { src.apply_edits(&edits); rp.apply_edits(&edits); }
            let mut w = want_tree(&st["tree"], &t, &mut 0, parser.lexer.blanks).unwrap();
            if let (true, Plan::Node(_, _, c)) = (parser.eof.get(), &mut w) { c.push(Plan::Leaf(0, 0)); }
            parser.built.set(0);
            parser.asked.set(0);
            let r = guard(|| {
                let out = if rope { parser.parse(&rp, &edits, &mut session) } else { parser.parse(&src, &edits, &mut session) };
                let root = out.result.map_err(|e| format!("{e:?}"))?;
                if k % 2 == 0 { churn(); }
                let got = plan(root);
                if got != w { return Err(format!("tree {got:?} instead of {w:?}")); }
                reused += parser.asked.get() - parser.built.get();
                if session.last_root().map(plan).as_ref() != Some(&w) { return Err("the session offers another tree".into()); }
                let mut fresh = ParseSession::<Mini>::new(4);
                let p = MiniParser { lexer: parser.lexer, eof: parser.eof.clone(), ..Default::default() };
                let scratch = plan(p.parse(&src, &[], &mut fresh).result.map_err(|e| format!("{e:?}"))?);
                if scratch != w { return Err(format!("tree from scratch {scratch:?} instead of {w:?}")); }
                Ok(())
            });
            parses += 1;
            if let Err(m) | Ok(Err(m)) = r {
                sum.bad(json!({"what": m, "step": k, "rope": rope, "blanks": parser.lexer.blanks, "end_in_tree": parser.eof.get(), "behaviour": short(h)}));
                break;
            }
            cur = t;
        }
        if sum.evaluated % 5000 == 3 { sum.sample(short(h)); }
    }
    sum.extra.insert("parses".into(), json!(parses));
    sum.extra.insert("reused_nodes".into(), json!(reused));
    sum.print();
}

fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "lexing" => lexing(&arg(2), argn(3)),
        "trees" => trees(&arg(2), argn(3)),
        m => panic!("mode {m}"),
    }
    let _ = |s: &ParseSession<Mini>| { let _ = s.lex_output(); };
}
