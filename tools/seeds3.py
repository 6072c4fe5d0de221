from seedlib import seed
P = "projects/"; CORE = P + "oak-core"; VFS = P + "oak-vfs"; LSP = P + "oak-lsp"; RES = P + "oak-resolver"
MINI = open("/verif/tools/seeds2.py").read().split("LANG = r'''")[1].split("'''")[0]
POLL = r'''
fn run<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop { if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r } }
}
'''
SERVICE = POLL + r'''
struct Svc { vfs: oak_vfs::MemoryVfs, ws: oak_lsp::workspace::WorkspaceManager }
impl oak_lsp::service::LanguageService for Svc {
    type Lang = Mini;
    type Vfs = oak_vfs::MemoryVfs;
    fn vfs(&self) -> &oak_vfs::MemoryVfs { &self.vfs }
    fn workspace(&self) -> &oak_lsp::workspace::WorkspaceManager { &self.ws }
}
fn svc() -> Svc { Svc { vfs: oak_vfs::MemoryVfs::new(), ws: oak_lsp::workspace::WorkspaceManager::new() } }
'''
SYMS = P + "oak-symbols"
seed("c16-merged-symbols", "C16", [(LSP + "/src/service.rs", "        async move { self.workspace().symbols.query(&query).into_iter().map(|s| WorkspaceSymbol::from(s)).collect() }",
"        async move {\n            let mut symbols = self.workspace().symbols.query(&query);\n            // A symbol that is declared more than once is listed once\n            symbols.dedup_by(|a, b| a.name == b.name && a.container_name == b.container_name && a.range == b.range);\n            symbols.into_iter().map(|s| WorkspaceSymbol::from(s)).collect()\n        }")],
MINI + SERVICE + r'''
use oak_lsp::service::LanguageService;
use oak_symbols::SymbolInformation;
fn main() {
    let s = svc();
    for f in ["file:///a", "file:///b", "file:///c"] {
        s.ws.symbols.update_file_symbols(f.into(), vec![SymbolInformation { name: "main".into(), role: UniversalElementRole::Definition, uri: f.to_string().into(), range: Range { start: 0, end: 4 }, container_name: None }]);
    }
    assert_eq!(run(s.workspace_symbols("main".into())).len(), 3);
}
''', [CORE, VFS, LSP, SYMS], "files that define the same name at the same range", "only one of them is reported")

seed("c16-files-once", "C16", [(LSP + "/src/service.rs", "                if self.vfs().is_file(&uri) {\n                    files.push(uri.to_string());",
"                if self.vfs().is_file(&uri) {\n                    // Links can lead to the same file again\n                    if files.iter().any(|f: &String| f.ends_with(&*uri) || uri.ends_with(f.as_str())) {\n                        continue;\n                    }\n                    files.push(uri.to_string());")],
MINI + POLL + r'''
use oak_lsp::service::LanguageService;
use oak_vfs::*;
struct Fs(std::sync::Mutex<std::collections::BTreeMap<String, Option<Vec<String>>>>);
impl Vfs for Fs {
    type Source = SourceText;
    fn get_source(&self, _: &str) -> Option<SourceText> { None }
    fn get_uri(&self, _: u32) -> Option<oak_core::Arc<str>> { None }
    fn get_id(&self, _: &str) -> Option<u32> { None }
    fn exists(&self, u: &str) -> bool { self.0.lock().unwrap().contains_key(u) }
    fn metadata(&self, u: &str) -> Option<FileMetadata> { self.0.lock().unwrap().get(u).map(|d| FileMetadata { file_type: if d.is_some() { FileType::Directory } else { FileType::File }, len: 0, modified: None }) }
    fn read_dir(&self, u: &str) -> Option<Vec<oak_core::Arc<str>>> { self.0.lock().unwrap().get(u).cloned().flatten().map(|v| v.iter().map(|x| x.as_str().into()).collect()) }
}
impl WritableVfs for Fs { fn write_file(&self, _: &str, _: oak_core::Arc<str>) {} fn remove_file(&self, _: &str) {} }
struct Svc { vfs: Fs, ws: oak_lsp::workspace::WorkspaceManager }
impl LanguageService for Svc {
    type Lang = Mini;
    type Vfs = Fs;
    fn vfs(&self) -> &Fs { &self.vfs }
    fn workspace(&self) -> &oak_lsp::workspace::WorkspaceManager { &self.ws }
}
fn main() {
    let mut m = std::collections::BTreeMap::new();
    m.insert("r".to_string(), Some(vec!["r/x".to_string(), "r/r".to_string()]));
    m.insert("r/r".to_string(), Some(vec!["r/r/x".to_string()]));
    m.insert("r/x".to_string(), None);
    m.insert("r/r/x".to_string(), None);
    let s = Svc { vfs: Fs(std::sync::Mutex::new(m)), ws: oak_lsp::workspace::WorkspaceManager::new() };
    let mut f = run(s.list_all_files("r"));
    f.sort();
    assert_eq!(f, ["r/r/x", "r/x"]);
}
''', [CORE, VFS, LSP], "two files of which one's relative URI ends with the other's (a directory nested in one of the same name)", "one of them is not listed")

seed("c17-id-number", "C17", [(P + "oak-mcp/src/lib.rs", "    pub async fn handle_request(&self, request: JsonRpcRequest) -> JsonRpcResponse {\n", "    pub async fn handle_request(&self, mut request: JsonRpcRequest) -> JsonRpcResponse {\n        // Some clients number their requests 1.0, 2.0, ...\n        if let Some(number) = request.id.as_f64() {\n            request.id = json!(number as i64);\n        }\n")],
MINI + SERVICE.replace("use oak_lsp::service::LanguageService;", "") + r'''
fn main() {
    let server = oak_mcp::McpServer::new(svc());
    for id in ["7", "\"x\"", "9007199254740993", "18446744073709551615", "1.5", "-3"] {
        let line = format!("{{\"jsonrpc\":\"2.0\",\"id\":{id},\"method\":\"initialize\"}}\n");
        let mut out = Vec::new();
        run(server.run(line.as_bytes(), &mut out)).unwrap();
        let out = String::from_utf8(out).unwrap();
        assert!(out.contains(&format!("\"id\":{id},")), "{id}: {out}");
    }
}
''', [CORE, VFS, LSP, P + "oak-mcp", 'tokio = { version = "1", features = ["io-util"] }'], "a request identifier beyond 2^53 or one that is not whole", "the response carries another identifier")

seed("c18-final-trim", "C18", [(P + "oak-pretty-print/src/document/printer.rs", "            self.output = self.output.trim_end_matches([' ', '\\t']).to_string()", "            self.output.truncate(self.output.trim_end().len())")],
r'''
use oak_pretty_print::{Document, FormatConfig};
fn main() {
    let d = Document::concat(vec!["a".into(), Document::HardLine, Document::HardLine]);
    assert_eq!(d.render(FormatConfig::default()), "a\n\n");
    assert_eq!(Document::concat(vec!["a\u{a0}".into()]).render(FormatConfig::default()), "a\u{a0}\n");
}
''', [P + "oak-pretty-print"], "a document that ends with more than one hard line", "the line breaks at the end are lost")

seed("c18-edge-space", "C18", [(P + "oak-pretty-print/src/document/printer.rs", "            Document::Line => {\n                // In non-expanded mode, Line behaves as a space\n                *width += 1;\n                *width > self.config.max_width", "            Document::Line => {\n                // In non-expanded mode, Line behaves as a space, after which something has to follow\n                *width += 1;\n                *width >= self.config.max_width")],
r'''
use oak_pretty_print::{Document, FormatConfig};
fn main() {
    let c = || { let mut c = FormatConfig::default().with_max_width(4); c.trim_trailing_whitespace = false; c.insert_final_newline = false; c };
    let d = Document::group(Document::concat(vec!["abc".into(), Document::Line]));
    assert_eq!(d.render(c()), "abc ");
    let d = Document::group(Document::concat(vec!["a".into(), Document::Line, "b".into(), Document::Line]));
    assert_eq!(d.render(c()), "a b ");
}
''', [P + "oak-pretty-print"], "a group whose flat form ends with a line break exactly at the maximum width", "the group is broken although it fits")

seed("c20-control", "C20", [(P + "oak-highlight/src/exporters/mod.rs", "            c if c.is_control() => escaped.push_str(&format!(\"\\\\u{:04x}\", c as u32)),", "            c if c.is_ascii_control() => escaped.push_str(&format!(\"\\\\x{:02x}\", c as u32)),")],
r'''
use oak_highlight::{*, exporters::*, highlighter::*};
fn main() {
    for t in ["a\u{1}b", "\u{7f}", "a\u{1b}[0m"] {
        let r = OakHighlighter::new().highlight(t, "x", themes::Theme::OneDarkPro).unwrap();
        let j = JsonExporter { pretty: false }.export(&r);
        let v: serde_json::Value = serde_json::from_str(&j).expect("well-formed JSON");
        assert_eq!(v["source"], t);
    }
}
''', [P + "oak-highlight", 'serde_json = "1"'], "a control character in the source", "the exported JSON is not well formed")

seed("c23-comma-source", "C23", [(CORE + "/src/errors/mod.rs", "            OakErrorKind::TrailingCommaNotAllowed { source_id: u, .. } => *u = Some(source_id),\n            _ => {}", "            OakErrorKind::TrailingCommaNotAllowed { source_id: Some(u), .. } => *u = source_id,\n            _ => {}")],
r'''
use oak_core::errors::{OakError, OakErrorKind};
fn main() {
    let e = OakError::trailing_comma_not_allowed(3, None).with_source_id(7);
    match e.kind() { OakErrorKind::TrailingCommaNotAllowed { source_id, offset } => { assert_eq!(*source_id, Some(7)); assert_eq!(*offset, 3) } _ => panic!() }
}
''', [CORE], "an error about a trailing comma that is created without a source and given one later", "the error carries no source")

seed("c23-page-column", "C23", [(P + "oak-diagnostic/src/lib.rs", "        let end_col = full_text.get(end_line_start..label.span.end.min(full_text.len())).unwrap_or(\"\").chars().count();\n\n        out.push_str(\"  <div class=\\\"snippet\\\">\\n\");", "        let end_col = full_text.get(end_line_start..label.span.end.min(full_text.len())).unwrap_or(\"\").chars().count();\n        // Tabs are shown four columns wide\n        let start_col = start_col + 3 * lines.get(start_line).map_or(0, |line| line.chars().take(start_col).filter(|c| *c == '\\t').count());\n\n        out.push_str(\"  <div class=\\\"snippet\\\">\\n\");")],
r'''
#![feature(new_range_api)]
use oak_core::source::SourceText;
use oak_diagnostic::*;
fn main() {
    let src = SourceText::new("\tab");
    let d = Diagnostic::error("x").with_label(core::range::Range { start: 2, end: 3 }, "here");
    let out = HtmlEmitter.render(&src, &d);
    assert!(out.contains(":1:3<"), "{out}");
}
''', [CORE, P + "oak-diagnostic"], "a tab before the error on its line, and a diagnostic rendered as a page", "the reported column is not that of the offset")

seed("c27-lossy", "C27", [(VFS + "/src/vfs/disk.rs", "        let content = fs::read_to_string(path).ok()?;", "        let content = String::from_utf8_lossy(&fs::read(path).ok()?).into_owned();")],
r'''
use oak_vfs::{DiskVfs, Vfs};
fn main() {
    let d = std::env::var("DEMO_SCRATCH").unwrap();
    std::fs::write(format!("{d}/a"), b"x\xff").unwrap();
    let v = DiskVfs::new(d.into());
    if let Some(s) = v.get_source("a") { panic!("contents that the file does not have: {:?}", s.text()) }
}
''', [CORE, 'oak-vfs = { path = "$R/projects/oak-vfs", features = ["disk"] }'], "a file that is not text", "it is shown with contents that are not those on disk")

