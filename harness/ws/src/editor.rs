//! Editor requests: behaviours of the Editor specification against LanguageService, the symbol provider and the reference finder.
#![feature(new_range_api)]
use core::range::Range;
use oak_core::language::*;
use oak_core::source::{Source, SourceId, SourceText};
use oak_core::tree::{GreenLeaf, GreenNode, GreenTree, RedNode};
use oak_lsp::service::LanguageService;
use oak_lsp::types::{InitializeParams, LocationRange, SymbolKind};
use oak_lsp::workspace::WorkspaceManager;
use oak_navigation::SimpleReferenceFinder;
use oak_symbols::{SymbolProvider, UniversalSymbolProvider};
use oak_vfs::{FileMetadata, FileType, MemoryVfs, Vfs, WritableVfs};
use std::collections::HashMap;
use std::future::Future;
use std::sync::Mutex;
use std::task::{Context, Poll, Waker};
use vf_util::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct T(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K { Root, Def, Ref, Block }
impl From<T> for K { fn from(_: T) -> K { K::Block } }
impl TokenType for T {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = T(0);
    fn role(&self) -> UniversalTokenRole { match self.0 { 0 => UniversalTokenRole::Eof, 1 => UniversalTokenRole::Whitespace, 2 => UniversalTokenRole::Name, 3 => UniversalTokenRole::Keyword, _ => UniversalTokenRole::Punctuation } }
}
impl ElementType for K {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole { match self { K::Root => UniversalElementRole::Root, K::Def => UniversalElementRole::Definition, K::Ref => UniversalElementRole::Reference, K::Block => UniversalElementRole::Container } }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Lang;
impl Language for Lang { const NAME: &'static str = "lang"; type TokenType = T; type ElementType = K; type TypedRoot = (); }
type Green = GreenNode<'static, Lang>;

const NAMES: &[(&str, &str, &str)] = &[("alpha", "beta", "mod.ext"), ("a", "b", "mod.ext"), ("élan", "中文", "mod.ext"), ("x😀", "q", "mod.ext")];
fn name(x: &str, v: usize) -> String {
    let n = NAMES[v % NAMES.len()];
    match x { "x" => n.0.into(), "y" => n.1.into(), "m" => n.2.into(), "?" => "<Def>".into(), "" => String::new(), o => o.split("::").map(|p| name(p, v)).collect::<Vec<_>>().join("::") }
}
/// A file as the specification describes it, as text and as a tree; `off` are the bytes of the item boundaries, `lead` what stands before the name in an item.
struct File { text: String, off: Vec<usize>, lead: Vec<usize> }
fn leaf(k: u8, s: &str) -> GreenTree<'static, Lang> { GreenTree::Leaf(GreenLeaf::new(T(k), s.len() as u32)) }
fn node(k: K, ch: Vec<GreenTree<'static, Lang>>) -> &'static Green { Box::leak(Box::new(GreenNode::new(k, Box::leak(ch.into_boxed_slice())))) }
fn build(items: &Value, v: usize) -> (File, &'static Green) {
    let mut f = File { text: String::new(), off: vec![0], lead: vec![] };
    let mut stack: Vec<(K, Vec<GreenTree<'static, Lang>>)> = vec![(K::Root, vec![])];
    for t in arr(items) {
        let x = name(s(&t["x"]), v);
        let mut lead = 0;
        let piece = match s(&t["k"]) {
            "n" => { stack.last_mut().unwrap().1.push(leaf(2, &x)); x }
            "r" => { let n = node(K::Ref, vec![leaf(2, &x)]); stack.last_mut().unwrap().1.push(GreenTree::Node(n)); x }
            "d" => { let kw = ["{", "fn ", "定义"][v % 3]; lead = kw.len(); stack.push((K::Def, vec![leaf(3, kw), leaf(2, &x)])); format!("{kw}{x}") }
            "a" => { stack.push((K::Def, vec![leaf(3, "(")])); "(".into() }
            "b" => { stack.push((K::Block, vec![leaf(3, "[")])); "[".into() }
            "w" => { let w = ["  ", "/* 中 */", "\n"][v % 3]; stack.last_mut().unwrap().1.push(leaf(1, w)); w.into() }
            "e" => { let (k, mut ch) = stack.pop().unwrap(); ch.push(leaf(4, "}")); stack.last_mut().unwrap().1.push(GreenTree::Node(node(k, ch))); "}".into() }
            o => panic!("item {o}"),
        };
        f.text += &piece;
        f.off.push(f.text.len());
        f.lead.push(lead);
    }
    while stack.len() > 1 { let (k, ch) = stack.pop().unwrap(); stack.last_mut().unwrap().1.push(GreenTree::Node(node(k, ch))); }
    let g = node(K::Root, stack.pop().unwrap().1);
    (f, g)
}

/// The in-memory file system with the folders its URIs name.
struct Folders { mem: MemoryVfs, base: String }
impl Folders {
    fn all(&self) -> Vec<String> { let mut v: Vec<String> = self.mem.read_dir("").unwrap_or_default().iter().map(|u| u.to_string()).collect(); v.sort(); v }
}
impl Vfs for Folders {
    type Source = SourceText;
    fn get_source(&self, uri: &str) -> Option<SourceText> { self.mem.get_source(uri) }
    fn get_uri(&self, id: SourceId) -> Option<oak_core::Arc<str>> { self.mem.get_uri(id) }
    fn get_id(&self, uri: &str) -> Option<SourceId> { self.mem.get_id(uri) }
    fn exists(&self, uri: &str) -> bool { self.metadata(uri).is_some() }
    fn metadata(&self, uri: &str) -> Option<FileMetadata> {
        if let Some(m) = self.mem.metadata(uri) { return Some(m) }
        let inside = format!("{}/", uri.trim_end_matches('/'));
        if uri == self.base || self.all().iter().any(|u| u.starts_with(&inside)) { return Some(FileMetadata { file_type: FileType::Directory, len: 0, modified: None }) }
        None
    }
    fn read_dir(&self, uri: &str) -> Option<Vec<oak_core::Arc<str>>> {
        let inside = format!("{}/", uri.trim_end_matches('/'));
        let mut r: Vec<String> = self.all().iter().filter_map(|u| u.strip_prefix(&inside).map(|rest| format!("{inside}{}", rest.split('/').next().unwrap()))).collect();
        r.sort();
        r.dedup();
        Some(r.iter().map(|x| oak_core::Arc::from(x.as_str())).collect())
    }
}
impl WritableVfs for Folders {
    fn write_file(&self, uri: &str, content: oak_core::Arc<str>) { self.mem.write_file(uri, content) }
    fn remove_file(&self, uri: &str) { self.mem.remove_file(uri) }
}
struct Service { vfs: Folders, ws: WorkspaceManager, trees: Mutex<HashMap<String, &'static Green>> }
impl LanguageService for Service {
    type Lang = Lang;
    type Vfs = Folders;
    fn vfs(&self) -> &Folders { &self.vfs }
    fn workspace(&self) -> &WorkspaceManager { &self.ws }
    fn get_root(&self, uri: &str) -> impl Future<Output = Option<RedNode<'_, Lang>>> + Send + '_ { let g = self.trees.lock().unwrap().get(uri).copied(); async move { g.map(|g| RedNode::new(g, 0)) } }
}
fn run<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1000 { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r } }
    panic!("the request does not come to an end")
}
fn rg(a: usize, b: usize) -> Range<usize> { Range { start: a, end: b } }

struct World { svc: Service, base: String, v: usize, module: String, files: HashMap<String, File> }
impl World {
    fn uri(&self, f: &str) -> String { format!("{}/{f}", self.base) }
    fn put(&mut self, f: &str, items: &Value) {
        let uri = self.uri(f);
        let (file, g) = build(items, self.v);
        self.svc.vfs.write_file(&uri, oak_core::Arc::from(file.text.as_str()));
        self.svc.trees.lock().unwrap().insert(uri.clone(), g);
        let syms = UniversalSymbolProvider::new().document_symbols(&uri, &RedNode::<Lang>::new(g, 0), &SourceText::new(file.text.clone()));
        self.svc.ws.symbols.update_file_symbols(uri, syms);
        self.files.insert(f.into(), file);
    }
    fn drop(&mut self, f: &str) {
        let uri = self.uri(f);
        self.svc.vfs.remove_file(&uri);
        self.svc.trees.lock().unwrap().remove(&uri);
        self.svc.ws.symbols.update_file_symbols(uri, vec![]);
        self.files.remove(f);
    }
    /// A symbol of the specification: name, container, uri, span.
    fn symbol(&self, f: &str, y: &Value) -> (String, Option<String>, String, usize, usize) {
        let file = &self.files[f];
        let c = name(s(&y["box"]), self.v);
        (name(s(&y["name"]), self.v), if c.is_empty() { None } else { Some(c) }, self.uri(f), file.off[u(&y["s"])], file.off[u(&y["e"])])
    }
    fn check(&self, now: &Value, rng: &mut Rng) -> Result<(), String> {
        let svc = &self.svc;
        for r in arr(&now["files"]) {
            let f = s(&r["file"]);
            let (uri, file) = (self.uri(f), &self.files[f]);
            let g = self.svc.trees.lock().unwrap()[&uri];
            let root = RedNode::<Lang>::new(g, 0);
            let want: Vec<_> = arr(&r["symbols"]).iter().map(|y| self.symbol(f, y)).collect();
            let own: Vec<_> = UniversalSymbolProvider.document_symbols(&uri, &root, file.text.as_str()).into_iter().map(|i| { if i.role != UniversalElementRole::Definition { return (String::new(), None, String::new(), 0, 0) } (i.name, i.container_name, i.uri.to_string(), i.range.start, i.range.end) }).collect();
            if own != want { return Err(format!("the symbols extracted from {f} are {own:?}, expected {want:?}")); }
            let items = run(svc.document_symbols(&uri));
            let got: Vec<_> = items.iter().map(|i| (i.name.clone(), i.range.start, i.range.end)).collect();
            if got != want.iter().map(|w| (w.0.clone(), w.3, w.4)).collect::<Vec<_>>() { return Err(format!("document symbols of {f} are {got:?}, expected {want:?}")); }
            for i in &items { if i.kind != SymbolKind::Function || i.role != UniversalElementRole::Definition || i.deprecated || !(i.range.start <= i.selection_range.start && i.selection_range.end <= i.range.end) || !i.children.is_empty() { return Err(format!("document symbol {i:?}")); } }
            if svc.get_source(&uri).map(|t| t.get_text_from(0).to_string()) != Some(file.text.clone()) { return Err(format!("the source of {f} is not its text")); }
            if run(svc.with_root(&uri, |n| (n.span().start, n.span().end))) != Some((0, file.text.len())) { return Err(format!("with_root of {f}")); }
            for (x, at) in r["uses"].as_object().unwrap() {
                let n = name(x, self.v);
                let got: Vec<_> = SimpleReferenceFinder::<Lang>::find(&root, &n, &file.text, uri.as_str()).into_iter().map(|l| LocationRange::from(l)).map(|l| (l.uri.to_string(), l.range.start, l.range.end)).collect();
                let want: Vec<_> = arr(at).iter().map(|i| { let k = u(i); (uri.clone(), file.off[k - 1] + file.lead[k - 1], file.off[k - 1] + file.lead[k - 1] + n.len()) }).collect();
                if got != want { return Err(format!("uses of {n} in {f}: {got:?}, expected {want:?}")); }
            }
            for (k, d) in arr(&r["definition"]).iter().enumerate() {
                let (a, b) = (file.off[k], file.off[k + 1]);
                let at = *rng.pick(&[a, a, a + (b - a) / 2, b - 1]);
                let got: Vec<_> = run(svc.definition(&uri, rg(at, b))).into_iter().map(|l| (l.uri.to_string(), l.range.start, l.range.end)).collect();
                let err = |w: String| Err(format!("definition at byte {at} of {f}: {got:?}, expected {w}"));
                match s(&d["kind"]) {
                    "here" => if got != [(uri.clone(), a, b)] { return err(format!("{a}..{b} itself")); },
                    "symbol" => {
                        let defs = arr(&now["defs"][s(&d["at"])]);
                        let ok: Vec<_> = defs.iter().map(|p| { let y = self.symbol(s(&p[0]), &p[1]); (y.2, y.3, y.4) }).collect();
                        if got.len() != 1 || !ok.contains(&got[0]) { return err(format!("one of {ok:?}")); }
                    }
                    "module" => if got != [(self.module.clone(), 0, 0)] { return err(self.module.clone()); },
                    _ => if !got.is_empty() { return err("nothing".into()); },
                }
            }
            if !file.text.is_empty() && !run(svc.definition(&uri, rg(file.text.len(), file.text.len()))).is_empty() { return Err(format!("a definition at the end of {f}")); }
        }
        for f in arr(&now["gone"]) {
            let uri = self.uri(s(f));
            if svc.get_source(&uri).is_some() || !run(svc.document_symbols(&uri)).is_empty() || !run(svc.definition(&uri, rg(0, 1))).is_empty() || run(svc.with_root(&uri, |_| ())).is_some() { return Err(format!("an answer about {f}, which does not exist")); }
        }
        for (q, ps) in now["search"].as_object().unwrap() {
            let mut got: Vec<_> = run(svc.workspace_symbols(name(q, self.v))).into_iter().map(|i| { let k = i.kind == SymbolKind::Function; (i.name, i.container_name, i.location.uri.to_string(), i.location.range.start, if k { i.location.range.end } else { 0 }) }).collect();
            let mut want: Vec<_> = arr(ps).iter().map(|p| self.symbol(s(&p[0]), &p[1])).collect();
            got.sort();
            want.sort();
            if got != want { return Err(format!("workspace symbols for {:?}: {got:?}, expected {want:?}", name(q, self.v))); }
        }
        if !run(svc.workspace_symbols("no such name".into())).is_empty() { return Err("workspace symbols for an unknown name".into()); }
        let there: Vec<&str> = arr(&now["files"]).iter().map(|r| s(&r["file"])).collect();
        for root in ["", "d", "d/e", "a", "d/a", "zzz", "d/e/b"] {
            let at = if root.is_empty() { self.base.clone() } else { self.uri(root) };
            let mut got = run(svc.list_all_files(&at));
            let mut want: Vec<String> = there.iter().filter(|f| root.is_empty() || **f == root || f.starts_with(&format!("{root}/"))).map(|f| self.uri(f)).collect();
            got.sort();
            want.sort();
            if got != want { return Err(format!("files under {root:?}: {got:?}, expected {want:?}")); }
        }
        // several roots at once, in the order asked for, the missing ones left out
        let mut asked: Vec<String> = there.iter().map(|f| f.to_string()).chain(arr(&now["gone"]).iter().map(|f| s(f).to_string())).collect();
        for k in (1..asked.len()).rev() { asked.swap(k, rng.below(k + 1)) }
        if let Some(f) = asked.first().cloned() { asked.push(f) }
        let want: Vec<usize> = asked.iter().filter_map(|f| self.files.get(f).map(|x| x.text.len())).collect();
        let got = run(svc.with_roots(asked.iter().map(|f| self.uri(f)).collect(), |n| n.span().end));
        if got != want { return Err(format!("the roots of {asked:?} end at {got:?}, expected {want:?}")); }
        Ok(())
    }
}

fn main() {
    quiet_panics();
    let mut sum = Summary::new();
    let scratch = arg(3);
    std::fs::create_dir_all(&scratch).unwrap();
    std::fs::write(format!("{scratch}/mod.ext"), "").unwrap();
    let root = url::Url::from_directory_path(&scratch).unwrap().to_string();
    let module = url::Url::from_file_path(format!("{scratch}/mod.ext")).unwrap().to_string();
    let mut rng = Rng::new(argn(4));
    let mut answers = 0;
    for h in read_lines(&arg(2)) {
        sum.evaluated += 1;
        let v = sum.evaluated;
        let base = match v % 4 { 0 => "d".to_string(), 1 => "mem:/d/e \u{e9}".to_string(), 2 => "d/d".to_string(), _ => format!("{root}files") };
        let ws = WorkspaceManager::new();
        ws.initialize(&InitializeParams { root_uri: Some(root.clone()), workspace_folders: vec![] });
        let mut w = World { svc: Service { vfs: Folders { mem: MemoryVfs::new(), base: base.clone() }, ws, trees: Mutex::new(HashMap::new()) }, base, v, module: module.clone(), files: HashMap::new() };
        for (n, e) in arr(&h).iter().enumerate() {
            let (op, f, g) = (s(&e["op"]), s(&e["f"]), s(&e["g"]));
            let now = |f: &str| arr(&e["now"]["files"]).iter().find(|r| s(&r["file"]) == f).map(|r| r["items"].clone());
            let r = guard(|| {
                if op == "remove" || op == "move" { w.drop(f) }
                if op != "remove" { w.put(g, &now(g).unwrap()) }
                w.check(&e["now"], &mut rng)
            });
            answers += 1;
            if let Some(m) = match r { Ok(Ok(())) => None, Ok(Err(m)) => Some(m), Err(p) => Some(format!("panic: {p}")) } {
                sum.bad(json!({"what": m, "step": n + 1, "texts": w.files.iter().map(|(k, x)| json!([k, x.text])).collect::<Vec<_>>(), "steps": arr(&h)[..=n].iter().map(|e| json!([e["op"], e["f"], e["g"]])).collect::<Vec<_>>()}));
                break;
            }
        }
        if v % 997 == 5 { sum.sample(json!({"steps": arr(&h).iter().map(|e| json!([e["op"], e["f"]])).collect::<Vec<_>>(), "texts": w.files.iter().map(|(k, x)| json!([k, x.text])).collect::<Vec<_>>()})) }
    }
    sum.extra.insert("states".into(), json!(answers));
    sum.print();
}
