//! Edits, chunked sources and cursors, line maps: behaviours of the Text specification against the real types.
#![feature(new_range_api)]
mod letters;
use core::range::Range;
use letters::*;
use oak_core::source::*;
use oak_vfs::LineMap;
use vf_util::*;

fn rg(a: usize, b: usize) -> Range<usize> { Range { start: a, end: b } }

// ---------------------------------------------------------------- edits
trait Ed { fn apply(&mut self, e: &[TextEdit]) -> Range<usize>; fn check(&self, want: &str) -> Result<(), String>; fn fork(&self) -> Box<dyn Ed>; fn name(&self) -> &'static str; fn min(&mut self, e: &[TextEdit]) -> usize; }
fn read_all<S: Source>(x: &S, want: &str) -> Result<(), String> {
    if x.length() != want.len() { return Err(format!("length {} instead of {}", x.length(), want.len())); }
    if x.get_text_in(rg(0, want.len())) != want { return Err("get_text_in(0..len) is not the spliced text".into()); }
    if x.get_text_from(0) != want { return Err("get_text_from(0) is not the spliced text".into()); }
    let mut all = String::new();
    let mut at = 0;
    while at < x.length() {
        let c = x.chunk_at(at);
        if c.start > at || c.end() <= at { return Err(format!("chunk_at({at}) is {}..{}", c.start, c.end())); }
        all += c.slice_from(at);
        at = c.end();
    }
    if all != want { return Err("the chunks do not add up to the spliced text".into()); }
    Ok(())
}
impl Ed for SourceText {
    fn apply(&mut self, e: &[TextEdit]) -> Range<usize> { self.apply_edits_range(e) }
    fn min(&mut self, e: &[TextEdit]) -> usize { self.apply_edits(e) }
    fn check(&self, w: &str) -> Result<(), String> { if self.text() != w { return Err("text() is not the spliced text".into()); } read_all(self, w) }
    fn fork(&self) -> Box<dyn Ed> { Box::new(self.clone()) }
    fn name(&self) -> &'static str { "SourceText" }
}
impl Ed for RopeBuffer {
    fn apply(&mut self, e: &[TextEdit]) -> Range<usize> { self.apply_edits_range(e) }
    fn min(&mut self, e: &[TextEdit]) -> usize { self.apply_edits(e) }
    fn check(&self, w: &str) -> Result<(), String> { read_all(self, w)?; read_all(&self.snapshot(), w) }
    fn fork(&self) -> Box<dyn Ed> { Box::new(self.clone()) }
    fn name(&self) -> &'static str { "RopeBuffer" }
}

fn edits(path: &str, seed: u64) {
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed);
    for h in read_lines(path) {
        sum.evaluated += 1;
        set_variant(sum.evaluated);
        let h = arr(&h);
        let t0 = text(&h[0]["text"], 1);
        // plain, and with a pad before so that a storage boundary falls inside the text
        for pad in [0usize, 4096 - rng.below(t0.s.len().min(60) + 1), 4095] {
            let padding = "p".repeat(pad);
            let full = format!("{padding}{}", t0.s);
            let mut eds: Vec<Box<dyn Ed>> = vec![Box::new(RopeBuffer::new(&full))];
            if pad == 0 { eds.push(Box::new(SourceText::new(full.clone()))); }
            for mut ed in eds {
                let mut cur = text(&h[0]["text"], 1);
                let name = ed.name();
                let mut snaps: Vec<(Box<dyn Ed>, String)> = vec![];
                for (n, st) in h[1..].iter().enumerate() {
                    let batch: Vec<TextEdit> = arr(&st["edits"]).iter().map(|e| TextEdit { span: rg(pad + cur.off[u(&e["s"])], pad + cur.off[u(&e["e"])]), text: text(&e["r"], 1).s.into() }).collect();
                    let new = text(&st["text"], 1);
                    let want = format!("{padding}{}", new.s);
                    let allowed: Vec<(usize, usize)> = arr(&st["ranges"]).iter().map(|r| (pad + cur.off[u(&r[0])], pad + new.off[u(&r[1])])).collect();
                    snaps.push((ed.fork(), format!("{padding}{}", cur.s)));
                    let r = guard(|| {
                        let mut other = ed.fork();
                        let got = ed.apply(&batch);
                        ed.check(&want)?;
                        if !batch.is_empty() && !allowed.contains(&(got.start, got.end)) { return Err(format!("reported range {}..{} does not cover the change", got.start - pad.min(got.start), got.end - pad.min(got.end))); }
                        let m = other.min(&batch);
                        other.check(&want)?;
                        if !batch.is_empty() && !allowed.iter().any(|(a, _)| *a == m) { return Err(format!("reported offset {m} lies after the first change")); }
                        for (sn, w) in &snaps { sn.check(w).map_err(|e| format!("an earlier copy changed: {e}"))?; }
                        Ok(())
                    });
                    let r = match r { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) };
                    if let Err(m) = r { sum.bad(json!({"type": name, "pad": pad, "step": n + 1, "what": m, "behaviour": h.iter().map(|x| json!({"edits": x["edits"], "text": x["text"]})).collect::<Vec<_>>()})); break; }
                    cur = new;
                }
            }
        }
        if sum.evaluated % 3000 == 7 { sum.sample(json!(h.iter().map(|x| json!({"edits": x["edits"], "text": x["text"]})).collect::<Vec<_>>())); }
    }
    sum.print();
}

// ---------------------------------------------------------------- cursor and sources
fn class(c: &str, x: char) -> bool {
    let ident = x.is_ascii_alphanumeric(); let ws = matches!(x, ' ' | '\t' | '\n' | '\r');
    match c { "ident" => ident, "digit" => x.is_ascii_digit(), "ws" => ws, "a" => x == 'a', "wide" => !x.is_ascii(), "all" => true, "none" => false, y => panic!("class {y}") }
}
fn run_cursor<S: Source + ?Sized>(src: &S, pad: usize, t: &Text, rep: usize, h: &[Value]) -> Result<(), String> {
    let len = t.off.len() - 1;
    let off = |k: usize| pad + t.off[k];
    let pos_of = |b: usize| -> Value { if b < pad { return json!(format!("byte {b}")); } match t.off.iter().position(|x| *x == b - pad) { Some(k) => json!(k), None => json!(format!("byte {b}")) } };
    let chopt = |c: Option<char>| c.map(|c| c.to_string()).unwrap_or_default();
    // the source itself
    if src.length() != pad + t.s.len() || src.is_empty() != (pad + len == 0) { return Err("length/is_empty".into()); }
    for i in 0..=len {
        if src.get_char_at(off(i)) != t.s[t.off[i]..].chars().next() { return Err(format!("get_char_at({i}) = {:?}", src.get_char_at(off(i)))); }
        if src.get_text_from(off(i)) != t.s[t.off[i]..] { return Err(format!("get_text_from({i})")); }
        for j in i..=len { if src.get_text_in(rg(off(i), off(j))) != t.s[t.off[i]..t.off[j]] { return Err(format!("get_text_in({i}..{j}) = {:?}", src.get_text_in(rg(off(i), off(j))))); } }
        let c = src.chunk_at(off(i));
        if i < len {
            if c.start > off(i) || c.end() <= off(i) { return Err(format!("chunk_at({i}) does not contain it")); }
            let (a, b) = (c.start.max(pad) - pad, c.end() - pad);
            if c.end() > pad + t.s.len() || !t.s.is_char_boundary(a) || !t.s.is_char_boundary(b) || &t.s[a..b] != c.slice_from(pad + a) { return Err(format!("chunk_at({i}) has the wrong text")); }
        } else if c.start != pad + t.s.len() && i > 0 || (i == len && c.slice_from(off(i)) != "") { return Err("chunk_at(end) is not empty".into()); }
    }
    for q in arr(&h[0]["obs"]["find"]) {
        let p = text(&q["p"], rep).s; let at = u(&q["i"]); let want = i(&q["r"]);
        let got = src.find_str_from(off(at), &p);
        let got = match got { None => json!(-1), Some(b) => pos_of(b) };
        if got != json!(want) { return Err(format!("find_str_from({at}, {p:?}) = {got}, expected {want}")); }
        if p.chars().count() == 1 {
            let got = match src.find_char_from(off(at), p.chars().next().unwrap()) { None => json!(-1), Some(b) => pos_of(b) };
            if got != json!(want) { return Err(format!("find_char_from({at}, {p:?}) = {got}, expected {want}")); }
        }
    }
    if src.find_str_from(off(0), "") != Some(off(0)) { return Err("find_str_from of the empty pattern".into()); }
    // the cursor
    let mut c = SourceCursor::new_at(src, pad);
    let mut pos = 0usize;
    for (n, st) in h[1..].iter().enumerate() {
        let a = &st["arg"];
        let op = s(&st["op"]);
        let mut res = json!("");
        let mut skip_res = false;
        match op {
            "set" => { let was = c.set_position(off(u(a))); if was != off(pos) { return Err(format!("step {}: set_position returned {was}", n + 1)); } }
            "peek" => res = json!(chopt(c.peek_char())),
            "peek_next" => { let g = c.peek_next_char(); if rep > 1 { skip_res = true } else { res = json!(chopt(g)) } }
            "peek_n" => { if pos + u(a) <= len { res = json!(chopt(c.peek_next_n(t.off[pos + u(a)] - t.off[pos]))) } else { res = json!(chopt(c.peek_next_n(t.s.len() + 1))) } }
            "advance" => { let mut first = None; for k in 0..rep { let g = c.advance_char(); if k == 0 { first = g } else if g != first { return Err(format!("step {}: advance_char", n + 1)); } } res = json!(chopt(first)); }
            "advance_by" => { let g = c.advance_bytes(t.off[pos + u(a)] - t.off[pos]); if g != c.position() { return Err("advance_bytes result".into()); } }
            "take" => { let cl = s(a).to_string(); let r = c.take_while(|x| class(&cl, x)); if r.start != off(pos) || r.end != c.position() { return Err(format!("step {}: take_while range {r:?}", n + 1)); } }
            "take_byte" => { let cl = s(a).to_string(); let r = c.take_while_byte(|x| x < 128 && class(&cl, x as char)); if r.start != off(pos) || r.end != c.position() { return Err(format!("step {}: take_while_byte range", n + 1)); } }
            "skip_ws" | "skip_digits" | "skip_ident" | "until" => {
                let r = match op { "skip_ws" => c.skip_ascii_whitespace(), "skip_digits" => c.skip_ascii_digits(), "skip_ident" => c.skip_ascii_ident_continue(), _ => c.skip_until(ch(s(a)).as_bytes()[0]) };
                if r.start != off(pos) || r.end != c.position() { return Err(format!("step {}: {op} range", n + 1)); }
            }
            "starts" => res = json!(if c.starts_with(&text(a, rep).s) { "yes" } else { "no" }),
            "consume" => res = json!(if c.consume_if_starts_with(&text(a, rep).s) { "yes" } else { "no" }),
            "find" => res = match c.find_str(&text(a, rep).s) { None => json!(-1), Some(b) => pos_of(b) },
            x => panic!("op {x}"),
        }
        let want = match &st["res"] { Value::String(x) => json!(if matches!(op, "starts" | "consume") || x.is_empty() { x.clone() } else { ch(x) }), x => x.clone() };
        if !skip_res && res != want { return Err(format!("step {} {op} {a}: answered {res}, expected {want}", n + 1)); }
        let got = pos_of(c.position());
        if got != st["pos"] { return Err(format!("step {} {op} {a}: position {got}, expected {}", n + 1, st["pos"])); }
        pos = u(&st["pos"]);
        // what is left must still be there, however it is stored
        let end = c.chunk_end(); let rest = c.rest().to_string();
        if !t.s[t.off[pos]..].starts_with(&rest) || (pos < len && rest.is_empty()) || end != off(pos) + rest.len() { return Err(format!("step {} {op} {a}: rest() is {rest:?} up to {end}", n + 1)); }
        if c.peek_byte() != t.s.as_bytes().get(t.off[pos]).copied() { return Err(format!("step {} {op} {a}: peek_byte", n + 1)); }
    }
    Ok(())
}

fn cursor(path: &str, seed: u64) {
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed ^ 5);
    let mut runs = 0usize;
    for h in read_lines(path) {
        sum.evaluated += 1;
        set_variant(sum.evaluated);
        let h = arr(&h);
        let n = sum.evaluated;
        let rep = [1, 1, 2, 1, 35][n % 5];
        let t = text(&h[0]["text"], rep);
        // pieces: the cuts of the behaviour, and for repeated letters some more inside the runs
        let mut cuts: Vec<usize> = arr(&h[0]["cuts"]).iter().map(|k| t.off[u(k)]).collect();
        if rep > 1 { for _ in 0..rng.below(4) { let mut b = rng.below(t.s.len() + 1); while !t.s.is_char_boundary(b) { b -= 1 } cuts.push(b) } }
        cuts.push(0); cuts.push(t.s.len()); cuts.sort(); cuts.dedup();
        let pieces: Vec<&str> = cuts.windows(2).map(|w| &t.s[w[0]..w[1]]).collect();
        let mut chunked = ChunkedBuffer::new();
        for p in &pieces { chunked.push_str(p) }
        let mut rope = RopeBuffer::new("");
        for p in &pieces { let at = rope.length(); rope.apply_edits(&[TextEdit { span: rg(at, at), text: p.to_string().into() }]); }
        let pad = 4096 - rng.below(t.s.len().min(4000) + 1);
        let padded = format!("{}{}", "p".repeat(pad), t.s);
        let mut streamed = ChunkedBuffer::new_with_id(7);
        streamed.push_str(&padded);
        let big = RopeBuffer::new(&padded);
        let mut go = |name: &str, pad: usize, f: &dyn Fn() -> Result<(), String>| {
            runs += 1;
            let r = match guard(f) { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) };
            if let Err(m) = r { sum.bad(json!({"source": name, "pad": pad, "rep": rep, "pieces": pieces.iter().map(|p| p.len()).collect::<Vec<_>>(), "what": m, "text": h[0]["text"], "ops": h[1..].iter().map(|x| json!([x["op"], x["arg"]])).collect::<Vec<_>>()})); }
        };
        go("ChunkedBuffer", 0, &|| run_cursor(&chunked, 0, &t, rep, h));
        let snap = chunked.snapshot(); go("ChunkedSource", 0, &|| run_cursor(&snap, 0, &t, rep, h));
        go("RopeBuffer", 0, &|| run_cursor(&rope, 0, &t, rep, h));
        let snap = rope.snapshot(); go("RopeSource", 0, &|| run_cursor(&snap, 0, &t, rep, h));
        if n % 4 == 0 {
            go("str", 0, &|| run_cursor(t.s.as_str(), 0, &t, rep, h));
            let r = t.s.as_str(); go("&str", 0, &|| run_cursor(&r, 0, &t, rep, h));
            let st = SourceText::new(t.s.clone()); go("SourceText", 0, &|| run_cursor(&st, 0, &t, rep, h));
            go("ChunkedBuffer (long)", pad, &|| run_cursor(&streamed, pad, &t, rep, h));
            go("RopeBuffer (long)", pad, &|| run_cursor(&big, pad, &t, rep, h));
            let st = SourceText::new(padded.clone()); go("SourceText (long)", pad, &|| run_cursor(&st, pad, &t, rep, h));
        }
        if n % 20000 == 7 { sum.sample(json!({"text": h[0]["text"], "cuts": h[0]["cuts"], "ops": h[1..].iter().map(|x| json!([x["op"], x["arg"], x["res"], x["pos"]])).collect::<Vec<_>>()})); }
    }
    sum.extra.insert("runs".into(), json!(runs));
    sum.print();
}

// ---------------------------------------------------------------- line maps
fn check_lines<S: Source + ?Sized>(src: &S, t: &Text, h: &Value) -> Result<(), String> {
    let m = LineMap::from_source(src);
    let lines = arr(&h["lines"]);
    if m.line_count() != lines.len() { return Err(format!("{} lines, expected {}", m.line_count(), lines.len())); }
    for (k, l) in lines.iter().enumerate() {
        let (a, b) = (t.off[u(&l["s"])], t.off[u(&l["e"])]);
        if m.line_start(k as u32) != Some(a) || m.line_end(k as u32) != Some(b) { return Err(format!("line {k} is {:?}..{:?}, expected {a}..{b}", m.line_start(k as u32), m.line_end(k as u32))); }
        // beyond the end of the line: still on that line
        for extra in [1, 7] {
            let o = m.line_col_utf16_to_offset(src, k as u32, (u(&l["units"]) + extra) as u32);
            if o < a || o > b { return Err(format!("a column past the end of line {k} converts to {o}, outside {a}..{b}")); }
        }
    }
    let n = lines.len() as u32;
    if m.line_start(n).is_some() || m.line_end(n).is_some() { return Err("a line after the last".into()); }
    if m.line_col_utf16_to_offset(src, n, 0) != t.s.len() { return Err("a position after the last line is not the end".into()); }
    for (k, p) in arr(&h["pos"]).iter().enumerate() {
        let o = t.off[k];
        let want = (u(&p["line"]) as u32, u(&p["col"]) as u32);
        let got = m.offset_to_line_col_utf16(src, o);
        if got != want { return Err(format!("offset {o} is at {got:?}, expected {want:?}")); }
        let back = m.line_col_utf16_to_offset(src, want.0, want.1);
        if back != o { return Err(format!("{want:?} converts back to {back}, expected {o}")); }
    }
    if m.offset_to_line_col_utf16(src, t.s.len() + 3) != m.offset_to_line_col_utf16(src, t.s.len()) { return Err("an offset past the end is not clamped".into()); }
    Ok(())
}
fn lines(path: &str, seed: u64) {
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed ^ 9);
    for h in read_lines(path) {
        sum.evaluated += 1;
        set_variant(sum.evaluated);
        let t = text(&h["text"], 1);
        let mut chunked = ChunkedBuffer::new();
        let mut at = 0;
        while at < t.s.len() { let mut e = (at + 1 + rng.below(4)).min(t.s.len()); while !t.s.is_char_boundary(e) { e += 1 } chunked.push_str(&t.s[at..e]); at = e; }
        let rope = RopeBuffer::new(&t.s);
        let st = SourceText::new(t.s.clone());
        for (name, f) in [("SourceText", &(|| check_lines(&st, &t, &h)) as &dyn Fn() -> Result<(), String>), ("chunked", &|| check_lines(&chunked, &t, &h)), ("rope", &|| check_lines(&rope, &t, &h)), ("str", &|| check_lines(t.s.as_str(), &t, &h))] {
            let r = match guard(f) { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) };
            if let Err(m) = r { sum.bad(json!({"source": name, "what": m, "text": h["text"]})); }
        }
        if sum.evaluated % 1500 == 7 { sum.sample(h.clone()); }
    }
    sum.print();
}
fn main() {
    quiet_panics();
    match arg(1).as_str() { "edits" => edits(&arg(2), argn(3)), "cursor" => cursor(&arg(2), argn(3)), "lines" => lines(&arg(2), argn(3)), x => panic!("mode {x}") }
}
