//! Key histories typed into the real interactive shell over a pseudo terminal: what the language is shown, asked and given.
use oak_highlight::HighlightResult;
use oak_repl::{HandleResult, OakRepl, ReplError, ReplHandler};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vf_util::*;

struct Tty { master: i32, out: i32, seen: Cell<usize> }
impl Tty {
    /// Standard input becomes a pseudo terminal, standard output a memory file; returns the real standard output too.
    fn new() -> (Tty, i32) {
        unsafe {
            let (mut m, mut s) = (0, 0);
            assert_eq!(libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()), 0, "no pseudo terminal");
            libc::dup2(s, 0);
            let real = libc::dup(1);
            let out = libc::memfd_create(c"out".as_ptr(), 0);
            libc::dup2(out, 1);
            (Tty { master: m, out, seen: Cell::new(0) }, real)
        }
    }
    fn send(&self, bytes: &[u8]) { unsafe { assert_eq!(libc::write(self.master, bytes.as_ptr() as _, bytes.len()), bytes.len() as isize) } }
    /// The columns (from 0) the cursor was put on by what was written since the last call.
    fn columns(&self) -> Vec<usize> {
        let mut buf = vec![0u8; 1 << 14];
        let n = unsafe { libc::pread(self.out, buf.as_mut_ptr() as _, buf.len(), self.seen.get() as i64) }.max(0) as usize;
        self.seen.set(self.seen.get() + n);
        let text = String::from_utf8_lossy(&buf[..n]).into_owned();
        let (mut col, mut res) = (0usize, vec![]);
        let mut it = text.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '\r' | '\n' => col = 0,
                '\u{1b}' => {
                    it.next();
                    let mut arg = String::new();
                    while let Some(c) = it.next() {
                        if c.is_ascii_digit() || c == ';' { arg.push(c); continue }
                        let n: usize = arg.parse().unwrap_or(1);
                        match c { 'G' => col = n.saturating_sub(1), 'C' => col += n, 'D' => col = col.saturating_sub(n), _ => {} }
                        break;
                    }
                    res.push(col);
                }
                _ => col += 1,
            }
        }
        res
    }
}
fn letter(l: &str) -> char { match l { "e" => '\u{e9}', "k" => '\u{6f22}', "g" => '\u{1f600}', x => x.chars().next().unwrap() } }
fn real(v: &Value) -> String { arr(v).iter().map(|c| letter(s(c))).collect() }
fn whole(v: &Value) -> String { arr(v).iter().map(real).collect::<Vec<_>>().join("\n") }
const PROMPT: &str = "> ";

#[derive(Default)]
struct State { hist: Vec<Value>, at: usize, asked: Vec<String>, ran: Vec<String>, bad: Option<Value>, started: bool, closing: u8, cont: bool, next: std::collections::VecDeque<Value>, evaluated: usize, keys: usize, found: Vec<Value>, samples: Vec<Value> }
impl State { fn marked(&self) -> bool { self.hist.first().is_some_and(|k| k["lang"] == "marked") } }
struct Hand { tty: Rc<Tty>, st: Rc<RefCell<State>> }
fn balance(t: &str) -> i64 { t.chars().map(|c| match c { '(' => 1, ')' => -1, _ => 0 }).sum() }
impl Hand {
    /// The line the shell shows after the last key: judges the key's effect and sends the next key.
    fn step(&self, line: &str) {
        let mut st = self.st.borrow_mut();
        let cols = self.tty.columns();
        if st.started {
            // The cursor of the previous drawing is judged one step later, when all of it is written.
            if let Some(b) = judge(&st, line, &cols) { st.bad = Some(b) }
        }
        if st.bad.is_some() { drop(st); panic!("violation"); }
        if st.started { st.at += 1; }
        if !st.started || st.at == st.hist.len() {
            if st.closing == 0 && st.started { st.closing = 1; st.started = false; self.tty.send(b"\x03"); return; }
            match st.next.pop_front() {
                Some(h) => { if st.samples.len() < 2 { st.samples.push(h.clone()) } st.hist = arr(&h).clone(); st.at = 0; st.started = true; st.closing = 0; st.evaluated += 1; }
                None => { st.closing = 2; self.tty.send(b"\x04"); return; }
            }
        }
        st.asked.clear();
        st.ran.clear();
        st.keys += 1;
        let k = st.hist[st.at].clone();
        match s(&k["k"]) {
            "char" => { let mut b = [0; 4]; self.tty.send(letter(s(&k["c"])).encode_utf8(&mut b).as_bytes()) }
            "left" => self.tty.send(b"\x1b[D"),
            "right" => self.tty.send(b"\x1b[C"),
            "back" => self.tty.send(b"\x7f"),
            "enter" => self.tty.send(b"\r"),
            "cancel" => self.tty.send(b"\x03"),
            "eof" => self.tty.send(b"\x04"),
            x => panic!("key {x}"),
        }
    }
}
fn judge(st: &State, line: &str, cols: &[usize]) -> Option<Value> {
    let e = &st.hist[st.at];
    let bad = |what: &str, got: Value, want: Value| Some(json!({"what": what, "got": got, "expected": want, "key": st.at, "history": st.hist[..=st.at].iter().map(|k| json!([k["k"], k.get("c")])).collect::<Vec<_>>()}));
    let want = real(&e["line"]);
    if line != want { return bad("the line being edited", json!(line), json!(want)); }
    if u(&e["n"]) > 1 && !st.cont { return bad("continuation prompt", json!(st.cont), json!(true)); }
    if e["cont"] == json!(false) && st.cont { return bad("continuation prompt", json!(st.cont), json!(false)); }
    let code = whole(&e["text"]);
    let enter = e["k"] == "enter";
    if enter != !st.asked.is_empty() || st.asked.iter().any(|a| *a != code) { return bad("the text asked to be complete", json!(st.asked), json!(code)); }
    let ran: Vec<String> = if enter && e["complete"] == json!(true) { vec![code] } else { vec![] };
    if st.ran != ran { return bad("the text executed", json!(st.ran), json!(ran)); }
    // The drawing before this key, for characters that take one column.
    if st.at > 0 {
        let p = &st.hist[st.at - 1];
        let l = real(&p["line"]);
        let c = PROMPT.len() + u(&p["col"]);
        if l.chars().all(|c| c < '\u{2e80}') && !cols.contains(&c) { return bad("the cursor's column after the key before", json!(cols), json!(c)); }
    }
    None
}
impl ReplHandler for Hand {
    fn highlight<'a>(&self, code: &'a str) -> Option<HighlightResult<'a>> { self.step(code); None }
    fn prompt(&self, is_continuation: bool) -> &str { self.st.borrow_mut().cont = is_continuation; PROMPT }
    fn is_complete(&self, code: &str) -> bool {
        let mut st = self.st.borrow_mut();
        st.asked.push(code.to_string());
        if st.marked() { code.ends_with('(') } else { balance(code) <= 0 }
    }
    fn handle_line(&mut self, line: &str) -> Result<HandleResult, ReplError> { self.st.borrow_mut().ran.push(line.to_string()); Ok(HandleResult::Continue) }
    fn get_indent(&self, code: &str) -> usize { if self.st.borrow().marked() { 0 } else { balance(code).max(0) as usize } }
}
fn main() {
    quiet_panics();
    let (tty, real_out) = Tty::new();
    let tty = Rc::new(tty);
    let st = Rc::new(RefCell::new(State::default()));
    st.borrow_mut().next = read_lines(&arg(2)).collect();
    loop {
        let r = guard(|| OakRepl::new(Hand { tty: tty.clone(), st: st.clone() }).run().map_err(|e| e.to_string()));
        let mut x = st.borrow_mut();
        let done = x.closing == 2;
        match r {
            Ok(Ok(())) if done => break,
            Ok(Err(e)) if e.starts_with("IO") => { unsafe { libc::dup2(real_out, 1) }; eprintln!("{e}"); std::process::exit(3) }
            r => { let b = x.bad.take().unwrap_or_else(|| json!({"what": "the shell ended or panicked", "how": format!("{r:?}"), "key": x.at, "history": x.hist.iter().take(x.at + 1).map(|k| json!([k["k"], k.get("c")])).collect::<Vec<_>>()})); x.found.push(b) }
        }
        x.started = false;
        x.closing = 1;
        if done || x.found.len() > 20 { break }
    }
    unsafe { libc::dup2(real_out, 1) };
    let x = st.borrow();
    let mut sum = Summary::new();
    sum.evaluated = x.evaluated;
    for b in &x.found { sum.bad(b.clone()) }
    for b in &x.samples { sum.sample(b.clone()) }
    sum.extra.insert("keys".into(), json!(x.keys));
    sum.print();
}
