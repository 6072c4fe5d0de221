from seedlib import seed
P = "projects/"; CORE = P + "oak-core"; VFS = P + "oak-vfs"; LSP = P + "oak-lsp"; RES = P + "oak-resolver"; SYMS = P + "oak-symbols"; REPL = P + "oak-repl"
MEM = VFS + "/src/vfs/memory.rs"
seed("c13-id-count", "C13", [(MEM, "            let id = self.next_id.fetch_add(1, Ordering::SeqCst);\n", "            // Identifiers stay dense\n            let id = ids.len() as SourceId;\n            self.next_id.fetch_max(id + 1, Ordering::SeqCst);\n")], r'''
use oak_vfs::*;
fn main() {
    let v = MemoryVfs::new();
    for u in ["a", "b", "c"] { v.write_file(u, u.to_string()); }
    v.remove_file("a");
    v.write_file("d", "d".to_string());
    for u in ["b", "c", "d"] { assert_eq!(v.get_uri(v.get_id(u).unwrap()).as_deref(), Some(u)); }
}
''', [VFS], "a file that is removed while later ones stay, and a new one", "the new file takes over the identifier of another file")

seed("c13-late-remove", "C13", [(MEM, """        let mut files = self.files.write().unwrap();
        let mut ids = self.ids.write().unwrap();
        let mut uri_to_id = self.uri_to_id.write().unwrap();

        if let Some(entry) = files.remove(uri) {
            uri_to_id.remove(uri);
            ids.remove(&entry.id);
        }
""", """        // The entry may be large: drop it after its lock is released.
        let entry = self.files.write().unwrap().remove(uri);

        if let Some(entry) = entry {
            self.uri_to_id.write().unwrap().remove(uri);
            self.ids.write().unwrap().remove(&entry.id);
        }
""")], r'''
use oak_vfs::*;
fn main() {
    let v = MemoryVfs::new();
    let start = std::time::Instant::now();
    let mut bad = 0;
    while bad == 0 && start.elapsed().as_secs() < 20 {
        v.write_file("a", "0".to_string());
        std::thread::scope(|s| {
            s.spawn(|| v.remove_file("a"));
            s.spawn(|| v.write_file("a", "1".to_string()));
        });
        if v.exists("a") != v.get_id("a").is_some() { bad += 1; }
        if let Some(id) = v.get_id("a") { if v.get_uri(id).is_none() { bad += 1; } }
    }
    assert_eq!(bad, 0);
}
''', [VFS], "a write of a file while another thread removes it", "the file exists without an identifier")

seed("c14-moved-only", "C14", [(RES + "/src/lib.rs", "        for sym in &symbols {\n            let fqn = self.make_qualified_name(sym);\n", "        for (i, sym) in symbols.iter().enumerate() {\n            // Overloads follow each other and share one entry\n            if i > 0 && symbols[i - 1].name == sym.name && symbols[i - 1].role == sym.role {\n                continue;\n            }\n            let fqn = self.make_qualified_name(sym);\n")], r'''
#![feature(new_range_api)]
use oak_resolver::*;
use oak_symbols::SymbolInformation;
use oak_core::language::UniversalElementRole;
fn main() {
    let t = GlobalSymbolTable::new();
    let s = |c: Option<&str>, at: usize| SymbolInformation { name: "new".into(), role: UniversalElementRole::Definition, uri: "u".to_string().into(), range: oak_core::Range { start: at, end: at + 3 }, container_name: c.map(|c| c.to_string()) };
    t.update_file_symbols("u".into(), vec![s(Some("A"), 0), s(Some("B"), 9)]);
    assert!(t.lookup("A::new").is_some() && t.lookup("B::new").is_some());
}
''', [CORE, RES, SYMS], "two neighbouring symbols with one name in different containers", "the second one can not be found")

seed("c15-bare-roots", "C15", [(RES + "/src/lib.rs", "        if let Ok(base_url) = Url::parse(base_uri) {\n", "        // Bare names are looked for in the roots first\n        let bare = !import_path.contains(['.', '/']) && root_dirs.iter().any(|root| root.join(import_path).exists());\n        if let (Ok(base_url), false) = (Url::parse(base_uri), bare) {\n")], r'''
use oak_resolver::*;
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap()).canonicalize().unwrap();
    std::fs::create_dir_all(d.join("src")).unwrap();
    for f in ["m", "src/m", "src/main"] { std::fs::write(d.join(f), "").unwrap(); }
    let r = StandardResolver::new(vec![d.clone()]);
    let base = format!("file://{}/src/main", d.display());
    assert_eq!(r.resolve(&base, "m"), Some(format!("file://{}/src/m", d.display())));
}
''', [RES], "a name without extension that exists both next to the importing file and in the root folder around it", "the root folder's file wins")

PTY = r'''
use oak_highlight::HighlightResult;
use oak_repl::*;
use std::cell::RefCell;
use std::collections::VecDeque;
struct Hand { master: i32, keys: RefCell<VecDeque<&'static [u8]>>, ran: RefCell<Vec<String>>, last: RefCell<String> }
impl Hand {
    fn step(&self, line: &str) {
        *self.last.borrow_mut() = line.to_string();
        match self.keys.borrow_mut().pop_front() {
            Some(k) => unsafe { libc::write(self.master, k.as_ptr() as _, k.len()); },
            None => std::process::exit(check(&self.ran.borrow(), line)),
        }
    }
}
impl ReplHandler for Hand {
    fn highlight<'a>(&self, code: &'a str) -> Option<HighlightResult<'a>> { self.step(code); None }
    fn prompt(&self, _: bool) -> &str { "> " }
    fn is_complete(&self, code: &str) -> bool { code.ends_with(';') }
    fn handle_line(&mut self, line: &str) -> Result<HandleResult, ReplError> { self.ran.borrow_mut().push(line.to_string()); Ok(HandleResult::Continue) }
    fn get_indent(&self, _: &str) -> usize { 0 }
}
fn main() {
    let (mut m, mut s) = (0, 0);
    unsafe {
        assert_eq!(libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()), 0);
        libc::dup2(s, 0);
        libc::dup2(s, 1);
    }
    std::thread::spawn(move || { let mut b = [0u8; 4096]; while unsafe { libc::read(m, b.as_mut_ptr() as _, 4096) } > 0 {} });
    let h = Hand { master: m, keys: RefCell::new(KEYS.iter().copied().collect()), ran: RefCell::default(), last: RefCell::default() };
    let r = OakRepl::new(h).run();
    eprintln!("the shell ended: {}", r.is_ok());
    std::process::exit(1);
}
'''
LIBC = 'libc = "0.2"'
seed("c22-trim-join", "C22", [(REPL + "/src/lib.rs", "            self.lines[self.current_line].push_str(&current);\n", "            // The indentation belongs to the line break\n            self.lines[self.current_line].push_str(current.trim_start());\n")],
PTY + r'''
const KEYS: &[&[u8]] = &[b"a", b"\r", b" ", b"b", b"\x1b[D", b"\x1b[D", b"\x7f"];
fn check(_ran: &[String], line: &str) -> i32 { eprintln!("{line:?}"); (line != "a b") as i32 }
''', [REPL, P + "oak-highlight", LIBC], "joining a line that starts with a space to the one before", "the space disappears")
seed("c22-eof-blank", "C22", [(REPL + "/src/lib.rs", "        self.lines.len() == 1 && self.lines[0].is_empty()\n", "        self.lines.iter().all(|line| line.is_empty())\n")],
PTY + r'''
const KEYS: &[&[u8]] = &[b"\r", b"\x04", b"a"];
fn check(_ran: &[String], line: &str) -> i32 { eprintln!("{line:?}"); (line != "a") as i32 }
''', [REPL, P + "oak-highlight", LIBC], "the end-of-input key while several lines, all empty, have been typed", "the shell ends and the lines are lost")
