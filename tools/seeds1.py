from seedlib import seed
CORE = "projects/oak-core"; VFS = "projects/oak-vfs"; RES = "projects/oak-resolver"; LSP = "projects/oak-lsp"; SYM = "projects/oak-symbols"

seed("c01-delta-chars", "C01", [(CORE + "/src/source/text.rs",
"            delta += text.len() as isize - (span.end - span.start) as isize",
"            delta += text.chars().count() as isize - (span.end - span.start) as isize")],
r'''
#![feature(new_range_api)]
use oak_core::source::{SourceText, TextEdit};
use core::range::Range;
fn main() {
    let e = |a: usize, b: usize, t: &str| TextEdit { span: Range { start: a, end: b }, text: t.to_string().into() };
    let mut s = SourceText::new("0123456789");
    let r = s.apply_edits_range(&[e(1, 2, "ééé"), e(8, 9, "xyz")]);
    assert_eq!(s.text(), "0ééé234567xyz9");
    // the last changed byte is the z, so the affected range has to reach its end
    assert!(r.start <= 1 && r.end >= 16, "{:?}", r);
}
''', [CORE], "a batch of at least two edits where an earlier one (by position) inserts multibyte text and grows or shifts the text more in bytes than in characters",
"the reported affected range ends before the last byte that changed")

seed("c02-forward-jump", "C02", [(CORE + "/src/source/cursor.rs",
"            let chunk = self.source.chunk_at(next);\n            self.scratch.push_str(chunk.text);\n            next = chunk.end()\n        }\n        self.scratch.starts_with(pattern)",
"            let chunk = self.source.chunk_at(next);\n            self.scratch.push_str(chunk.text);\n            next = chunk.end();\n            if chunk.text.len() >= pattern.len() || next == end {\n                break;\n            }\n            // the pattern is short: the following chunk is all that can matter\n            if self.scratch.len() >= pattern.len() / 2 {\n                break;\n            }\n        }\n        self.scratch.starts_with(pattern)")],
r'''
use oak_core::source::{SourceCursor, RopeBuffer, TextEdit};
#[allow(unused)]
fn main() {
    // Build a rope with very short pieces by inserting piece by piece.
    let mut b = RopeBuffer::new("");
    let mut at = 0usize;
    for p in ["a", "bb", "c", "d", "tail"] {
        b.apply_edits(&[TextEdit { span: (at..at).into(), text: p.to_string().into() }]);
        at += p.len();
    }
    let mut c = SourceCursor::new(&b);
    assert!(c.starts_with("abbcdta"), "match that spans several short pieces");
    assert!(c.starts_with("abbcdtail"));
    assert!(!c.starts_with("abbcdtaix"));
}
''', [CORE], "a pattern that spans three or more stored pieces of the text", "starts_with stops joining pieces before the pattern's length is reached and reports no match")

seed("c03-surrogate", "C03", [(VFS + "/src/line_map.rs", "            utf16 += ch.len_utf16()\n", "            utf16 += if ch.len_utf8() > 2 && !ch.is_alphabetic() && ch > '\\u{2FFFF}' { 1 } else { ch.len_utf16() }\n")],
r'''
use oak_core::source::SourceText;
use oak_vfs::LineMap;
fn main() {
    for t in ["a\u{F0000}b", "\u{10FFFD}\u{E0001}xyz\n"] {
        let s = SourceText::new(t);
        let m = LineMap::from_source(&s);
        for (o, _) in t.char_indices() {
            let (l, c) = m.offset_to_line_col_utf16(&s, o);
            assert_eq!(m.line_col_utf16_to_offset(&s, l, c), o, "{:?} at {}", t, o);
        }
    }
}
''', [CORE, VFS], "a character of planes 3 to 16 (private use, tags) before the position on its line", "such characters count as one UTF-16 unit instead of two when a column is converted to an offset")

seed("c13-split-locks", "C13", [(VFS + "/src/vfs/memory.rs",
"""        let mut files = self.files.write().unwrap();
        let mut ids = self.ids.write().unwrap();
        let mut uri_to_id = self.uri_to_id.write().unwrap();

        let id = if let Some(id) = uri_to_id.get(&uri_arc) {
            *id
        }
        else {
            let id = self.next_id.fetch_add(1, Ordering::SeqCst);
            uri_to_id.insert(uri_arc.clone(), id);
            ids.insert(id, uri_arc.clone());
            id
        };

        files.insert(""",
"""        // Files that are already known only need the shared lock.
        let known = self.uri_to_id.read().unwrap().get(&uri_arc).copied();
        let id = match known {
            Some(id) => id,
            None => {
                let mut ids = self.ids.write().unwrap();
                let mut uri_to_id = self.uri_to_id.write().unwrap();
                let id = self.next_id.fetch_add(1, Ordering::SeqCst);
                uri_to_id.insert(uri_arc.clone(), id);
                ids.insert(id, uri_arc.clone());
                id
            }
        };

        let mut files = self.files.write().unwrap();
        files.insert(""")],
r'''
use oak_vfs::{MemoryVfs, Vfs};
use std::sync::{Arc, Barrier};
fn main() {
    // Two writers and a remover race on one name; afterwards the identifier maps have to agree with the file.
    for _ in 0..20000 {
        let v = MemoryVfs::new();
        v.write_file("m:/a", "x");
        let b = Arc::new(Barrier::new(2));
        let (v1, b1) = (v.clone(), b.clone());
        let t = std::thread::spawn(move || { b1.wait(); v1.remove_file("m:/a"); });
        b.wait();
        v.write_file("m:/a", "y");
        t.join().unwrap();
        if v.exists("m:/a") {
            let id = v.get_id("m:/a").expect("a file that exists has an identifier");
            assert_eq!(v.get_uri(id).as_deref(), Some("m:/a"));
        }
        else {
            assert!(v.get_id("m:/a").is_none());
        }
    }
}
''', [CORE, VFS], "a write and a removal of the same file by two threads, interleaved between looking up the identifier and storing the file", "the file exists without an identifier (or with one that leads nowhere)")

seed("c14-empty-update", "C14", [(RES + "/src/lib.rs",
"        if let Some((_, old_symbols)) = self.file_symbols.remove(&uri) {\n            for sym in old_symbols {",
"        if let Some((_, old_symbols)) = self.file_symbols.remove(&uri) {\n            // Symbols that only moved keep their entry.\n            for sym in old_symbols.into_iter().filter(|old| !symbols.iter().any(|new| new.name == old.name && new.container_name != old.container_name)) {")],
r'''
use oak_resolver::GlobalSymbolTable;
use oak_symbols::SymbolInformation;
use oak_core::UniversalElementRole;
fn sym(name: &str, container: Option<&str>, uri: &str) -> SymbolInformation {
    SymbolInformation { name: name.into(), role: UniversalElementRole::Definition, uri: uri.to_string().into(), range: (0..1).into(), container_name: container.map(|c| c.into()) }
}
fn main() {
    let t = GlobalSymbolTable::new();
    t.update_file_symbols("u".into(), vec![sym("f", Some("A"), "u")]);
    t.update_file_symbols("u".into(), vec![sym("f", Some("B"), "u")]);
    assert!(t.lookup("B::f").is_some());
    assert!(t.lookup("A::f").is_none(), "A::f is not defined any more");
}
''', [CORE, VFS, RES, SYM], "an update in which a symbol keeps its name but moves to another container", "the old qualified name keeps resolving to a symbol the file no longer defines")

seed("c15-prefix-root", "C15", [(LSP + "/src/workspace.rs", "            if path.starts_with(folder_path) {", "            if path.to_string_lossy().starts_with(folder_path.to_string_lossy().trim_end_matches('/')) {")],
r'''
use oak_lsp::workspace::WorkspaceManager;
fn main() {
    let w = WorkspaceManager::new();
    w.add_folder("file:///w/app".into(), "app".into());
    assert_eq!(w.find_root("file:///w/app/x.txt").as_deref(), Some("file:///w/app"));
    assert_eq!(w.find_root("file:///w/app-old/x.txt"), None, "app-old is not inside app");
}
''', [LSP], "two sibling folders where one name is a prefix of the other", "files of the longer-named sibling are attributed to the shorter-named workspace folder")
