from seedlib import seed
P = "projects/"; PP = P + "oak-pretty-print"; C = PP + "/src/comment/mod.rs"
PRE = r'''
use oak_pretty_print::comment::*;
fn at(offset: usize) -> Position { Position { line: 0, column: offset, offset } }
fn c(kind: CommentKind, text: &str, a: usize, b: usize) -> Comment { Comment::new(kind, text.to_string(), SourceSpan { start: at(a), end: at(b) }) }
'''
seed("c31-first-comment", "C31", [(C, "        for comment in comments {\n            if comment.is_trailing {\n", "        for comment in comments.into_iter().take(1) {\n            if comment.is_trailing {\n")], PRE + r'''
fn main() {
    // two comments after the place: one on a line of its own, then a trailing one
    let mut p = CommentProcessor::new();
    p.collector_mut().add_comment(c(CommentKind::Line, " one", 4, 10));
    p.collector_mut().add_comment(c(CommentKind::Line, " two", 12, 18).with_trailing(true));
    let mut out = "x".to_string();
    p.insert_trailing_comment(&mut out, at(2));
    assert_eq!(out, "x // two");
}
''', [PP], "a comment on a line of its own between the place and the trailing comment", "the trailing comment is lost")
seed("c31-star-words", "C31", [(C, "                        format!(\"/* {} */\", self.content.trim())\n", "                        format!(\"/* {} */\", self.content.trim_matches(|c: char| c == '*' || c.is_whitespace()))\n")], PRE + r'''
fn main() {
    // a word of the comment begins with a star
    assert_eq!(c(CommentKind::Block, "*p is null", 0, 14).formatted_text(""), "/* *p is null */");
}
''', [PP], "a block comment on one line whose text begins or ends with a star", "the star is dropped from the text")
seed("c31-sorted-reverse", "C31", [(C, "self.comments.sort_by(|a, b| a.span.start.offset.cmp(&b.span.start.offset))", "self.comments.sort_unstable_by(|a, b| (a.span.start.offset, a.span.end.offset).cmp(&(b.span.start.offset, b.span.end.offset)))")], PRE + r'''
fn main() {
    // comments recorded at the same place keep their order
    let mut k = CommentCollector::new();
    k.add_comment(c(CommentKind::Line, "long one", 3, 11));
    k.add_comment(c(CommentKind::Line, "short", 3, 8));
    k.sort_by_position();
    assert_eq!(k.comments()[0].content, "long one");
}
''', [PP], "two comments with one start and different ends", "sorting by position changes their order")
V = P + "oak-vfs"
seed("c32-folders", "C32", [(V + "/src/vfs/watch.rs", "else if event.kind.is_create() {", "else if matches!(event.kind, EventKind::Create(kind) if kind != notify::event::CreateKind::Folder) {")], r'''
use oak_vfs::{DiskWatcher, VfsEvent, VfsWatcher};
use std::time::Duration;
fn main() {
    let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap());
    let (tx, rx) = std::sync::mpsc::channel();
    let mut w = DiskWatcher::new(move |e| { let _ = tx.send(e); }).unwrap();
    w.watch(dir.to_str().unwrap()).unwrap();
    // a directory, then a file
    let (d, f) = (dir.join("d"), dir.join("f"));
    std::fs::create_dir(&d).unwrap();
    std::fs::write(&f, "x").unwrap();
    let mut made = vec![];
    while let Ok(e) = rx.recv_timeout(Duration::from_secs(20)) {
        if let VfsEvent::Created(u) = e { let last = u == f.display().to_string(); made.push(u); if last { break } }
    }
    assert_eq!(made, [d.display().to_string(), f.display().to_string()]);
}
''', [V], "a directory created below a watched one", "new directories are not reported")
