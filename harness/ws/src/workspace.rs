//! WorkspaceManager and StandardResolver against behaviours of the Workspace specification, on a scratch directory.
use oak_lsp::types::{InitializeParams, WorkspaceFolder};
use oak_lsp::workspace::WorkspaceManager;
use oak_resolver::ModuleResolver;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use url::Url;
use vf_util::*;

/// File names with an extension, without one, and with characters that are special in a URI.
static STYLE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn name(c: &str) -> String {
    let c = c.replace("~", "\u{e9}");
    match (STYLE.load(std::sync::atomic::Ordering::Relaxed) % 4, c.strip_suffix(".py")) {
        (1, Some(n)) => n.to_string(),
        (2, Some(n)) => format!("{n} #%41?.py"),
        (3, Some(n)) => format!(".{n}"),
        _ => c,
    }
}
fn path(base: &Path, p: &Value) -> PathBuf { let mut r = base.to_path_buf(); for c in arr(p) { r.push(name(s(c))) } r }
fn uri(base: &Path, p: &Value) -> String { Url::from_file_path(path(base, p)).unwrap().to_string() }

fn check(base: &Path, m: &WorkspaceManager, exp: &Value) -> Result<(), String> {
    for q in arr(&exp["resolve"]) {
        let froms = if arr(&q["base"]).is_empty() { vec!["untitled:Untitled-1".to_string(), "http://example.org/a/b.py".into(), "".into()] } else { vec![uri(base, &q["base"])] };
        let segs: Vec<String> = arr(&q["imp"]["segs"]).iter().map(|c| name(s(c))).collect();
        let imp = if q["imp"]["abs"] == true { path(base, &q["imp"]["segs"]).to_string_lossy().to_string() } else { segs.join("/") };
        let want = if arr(&q["r"]).is_empty() { None } else { Some(path(base, &q["r"])) };
        for from in froms {
            let got = m.resolver.resolve(&from, &imp);
            let shown = got.clone();
            let gotp = match got { None => None, Some(g) => match Url::parse(&g).ok().and_then(|x| x.to_file_path().ok()).and_then(|x| x.canonicalize().ok()) { Some(p) => Some(p), None => return Err(format!("resolve({from}, {imp}) = {g}, which names no file")) } };
            if gotp != want { return Err(format!("resolve({from}, {imp}) = {shown:?}, expected {want:?}")); }
        }
    }
    for q in arr(&exp["root"]) {
        let p = uri(base, &q["p"]);
        let want = if q["r"] == json!(["none"]) { None } else { Some(uri(base, &q["r"])) };
        let got = m.find_root(&p);
        if got != want { return Err(format!("find_root({p}) = {got:?}, expected {want:?}")); }
        if m.is_within_workspace(&p) != want.is_some() { return Err(format!("is_within_workspace({p}) disagrees with {want:?}")); }
        if m.get_path(&p) != Some(path(base, &q["p"])) || m.path_to_uri(path(base, &q["p"])) != Some(p.clone()) { return Err(format!("get_path/path_to_uri of {p}")); }
    }
    let got: BTreeSet<(String, PathBuf)> = m.list_folders().into_iter().collect();
    let want: BTreeSet<(String, PathBuf)> = arr(&exp["folders"]).iter().map(|f| (uri(base, f), path(base, f))).collect();
    if got != want { return Err(format!("list_folders = {got:?}, expected {want:?}")); }
    if m.find_root("untitled:x").is_some() || m.get_path("http://h/x").is_some() { return Err("a root or path for a non-file URI".into()); }
    Ok(())
}

fn main() {
    quiet_panics();
    // imports that leave the base still end in a directory of this run
    let own = std::env::temp_dir().canonicalize().unwrap().join(format!("vf-ws-{}", std::process::id()));
    let base = own.join("base");
    for d in ["w/in/in", "wx/in", "s p\u{e9}/in"] { std::fs::create_dir_all(base.join(d)).unwrap(); }
    let mut sum = Summary::new();
    for h in read_lines(&arg(2)) {
        sum.evaluated += 1;
        STYLE.store(sum.evaluated, std::sync::atomic::Ordering::Relaxed);
        let m = WorkspaceManager::new();
        let mut files: BTreeSet<PathBuf> = BTreeSet::new();
        for (n, st) in arr(&h).iter().enumerate() {
            match s(&st["op"]) {
                "create" => { let p = path(&base, &st["p"]); std::fs::write(&p, "x").unwrap(); files.insert(p); }
                "delete" => { let p = path(&base, &st["p"]); std::fs::remove_file(&p).unwrap(); files.remove(&p); }
                _ => {}
            }
            let r = guard(|| {
                match s(&st["op"]) {
                    "init" => m.initialize(&InitializeParams { root_uri: arr(&st["root"]).first().map(|x| uri(&base, x)), workspace_folders: arr(&st["folders"]).iter().map(|x| WorkspaceFolder { uri: uri(&base, x), name: "n".into() }).collect() }),
                    "add" => m.add_folder(uri(&base, &st["p"]), "n".into()),
                    "remove" => m.remove_folder(&uri(&base, &st["p"])),
                    _ => {}
                }
                check(&base, &m, &st["exp"])
            });
            let r = match r { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) };
            let ops = || arr(&h).iter().map(|x| { let mut y = x.clone(); y.as_object_mut().unwrap().remove("exp"); y }).collect::<Vec<_>>();
            if let Err(m) = r { sum.bad(json!({"step": n, "what": m, "history": ops()})); break; }
            if n == 3 && sum.evaluated % 1000 == 7 { sum.sample(json!(ops())); }
        }
        for p in files { std::fs::remove_file(p).unwrap(); }
    }
    std::fs::remove_dir_all(&own).unwrap();
    sum.print();
}
