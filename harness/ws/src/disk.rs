//! Replays behaviours of DiskVfs: a directory tree seen and changed through URIs and behind the view's back.
//! Works only below the current directory, which the check makes for it; it runs as a user without rights elsewhere.
use oak_core::{source::Source, Arc};
use oak_vfs::{DiskVfs, FileType, LineMap, Vfs, WritableVfs};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use vf_util::*;

fn text(v: &Value) -> String {
    arr(v).iter().map(|l| match s(l) { "x" => "x", "nl" => "\n", "e" => "é", "g" => "😀", l => panic!("letter {l}") }).collect()
}
const RAW: &[u8] = b"x\xff\xfe";
fn path(v: &Value) -> Vec<String> { arr(v).iter().map(|x| s(x).to_string()).collect() }

struct Site { root: PathBuf, at: PathBuf, names: Vec<String>, depth: usize, styles: Vec<String> }
impl Site {
    fn uri(&self, style: &str, p: &[String]) -> String {
        let rel = p.join("/");
        if style == "rel" { rel } else if rel.is_empty() { self.at.display().to_string() } else { format!("{}/{rel}", self.at.display()) }
    }
    fn real(&self, p: &[String]) -> PathBuf { p.iter().fold(self.at.clone(), |a, n| a.join(n)) }
    fn all(&self) -> Vec<Vec<String>> {
        let mut r = vec![vec![]];
        let mut last = r.clone();
        for _ in 0..self.depth {
            last = last.iter().flat_map(|p: &Vec<String>| self.names.iter().map(|n| { let mut q = p.clone(); q.push(n.clone()); q }).collect::<Vec<_>>()).collect();
            r.extend(last.clone());
        }
        r
    }
}

/// Everything a user can ask about the tree, against what the specification says is there.
fn look(v: &DiskVfs, site: &Site, h: &Value, seen: &mut HashMap<(String, String), u32>, used: &mut BTreeMap<u32, String>, since: u64) -> Result<(), String> {
    let tree: BTreeMap<Vec<String>, (&str, String)> = arr(&h["tree"]).iter().map(|x| (path(&x["path"]), (s(&x["kind"]), text(&x["text"])))).collect();
    let ids: BTreeSet<(String, String)> = arr(&h["ids"]).iter().map(|x| (s(&x["style"]).to_string(), path(&x["path"]).join("/"))).collect();
    for p in site.all() {
        let want = tree.get(&p);
        for style in &site.styles {
            let uri = site.uri(style, &p);
            let what = |m: &str| Err(format!("{uri:?}: {m}"));
            // the identifiers first: looking at a file must not be needed to know them
            let key = (style.clone(), p.join("/"));
            match (v.get_id(&uri), ids.contains(&key)) {
                (None, false) => { seen.remove(&key); }
                (Some(id), true) => {
                    if v.get_uri(id).as_deref() != Some(&*uri) { return what(&format!("its identifier {id} leads to {:?}", v.get_uri(id))) }
                    if *seen.entry(key.clone()).or_insert(id) != id { return what("its identifier changed") }
                    if used.entry(id).or_insert_with(|| uri.clone()) != &uri { return what("its identifier was another file's") }
                }
                (got, want) => return what(&format!("identifier {got:?}, expected one: {want}")),
            }
            let (file, dir, readable) = match want { None => (false, false, false), Some((k, _)) => (*k != "dir", *k == "dir", *k == "file") };
            if v.exists(&uri) != want.is_some() { return what(&format!("exists: {}", v.exists(&uri))) }
            if v.is_file(&uri) != file || v.is_dir(&uri) != dir { return what(&format!("is a file: {}, is a directory: {}", v.is_file(&uri), v.is_dir(&uri))) }
            match (v.metadata(&uri), want) {
                (None, None) => {}
                (Some(m), Some((k, t))) => {
                    let n = match *k { "raw" => RAW.len(), _ => t.len() };
                    if file && (m.file_type != FileType::File || m.len != n as u64) { return what(&format!("metadata {m:?}, expected a file of {n} bytes")) }
                    if dir && m.file_type != FileType::Directory { return what(&format!("metadata {m:?}, expected a directory")) }
                    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
                    if !m.modified.is_some_and(|x| since <= x && x <= now) { return what(&format!("modified at {:?}, not between {since} and {now}", m.modified)) }
                }
                (m, _) => return what(&format!("metadata {m:?}")),
            }
            // reading texts gives identifiers: only where there is one already, or nothing to read
            if ids.contains(&key) || !readable {
                let got = v.get_source(&uri);
                let t = want.filter(|w| w.0 == "file").map(|w| &w.1);
                if got.as_ref().map(|x| x.get_text_in((0..x.length()).into()).to_string()).as_ref() != t { return what(&format!("contents {got:?}, expected {t:?}")) }
                if let Some(x) = &got {
                    if x.source_id() != v.get_id(&uri) { return what(&format!("the source is identified as {:?}, the file as {:?}", x.source_id(), v.get_id(&uri))) }
                    let (a, b) = (v.line_map(&uri).unwrap(), LineMap::from_source(x));
                    if a.line_count() != b.line_count() || (0..a.line_count() as u32).any(|l| a.line_start(l) != b.line_start(l)) { return what("another line map than its text's") }
                }
            }
            let kids: Option<BTreeSet<PathBuf>> = dir.then(|| tree.keys().filter(|q| q.len() == p.len() + 1 && q.starts_with(&p)).map(|q| site.real(q)).collect());
            let got = v.read_dir(&uri);
            let resolved: Option<BTreeSet<PathBuf>> = got.as_ref().map(|g| g.iter().map(|x| { let x = Path::new(&**x); if x.is_absolute() { x.to_path_buf() } else { site.at.join(x) } }).collect());
            if resolved != kids || got.as_ref().map(|g| g.len()) != kids.as_ref().map(|k| k.len()) { return what(&format!("its entries {got:?}, expected {kids:?}")) }
        }
    }
    Ok(())
}

fn run(f: &str, dir: &str, relative: bool, both: bool, sum: &mut Summary) {
    let base = std::env::current_dir().unwrap().join(dir);
    for (n, h) in read_lines(f).enumerate() {
        if !both && (n % 2 == 1) != relative { continue }
        sum.evaluated += 1;
        let h = arr(&h);
        let name = format!("{dir}/t{n}");
        let at = base.join(format!("t{n}"));
        std::fs::create_dir_all(&at).unwrap();
        let (mut names, mut styles, mut depth) = (BTreeSet::new(), BTreeSet::new(), 0);
        for x in h {
            let p = path(&x["path"]);
            depth = depth.max(p.len());
            names.extend(p);
            if !s(&x["style"]).is_empty() { styles.insert(s(&x["style"]).to_string()); }
        }
        names.insert("other".into());
        styles.insert("rel".into());
        let root = if relative { PathBuf::from(&name) } else { at.clone() };
        let site = Site { root, at, names: names.into_iter().collect(), depth, styles: styles.into_iter().collect() };
        let since = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() - 1;
        let r = guard(|| -> Result<(), (usize, String)> {
            let v = DiskVfs::new(site.root.clone());
            let (mut seen, mut used) = (HashMap::new(), BTreeMap::new());
            for (k, x) in h.iter().enumerate() {
                let p = path(&x["path"]);
                let real = site.real(&p);
                let uri = site.uri(s(&x["style"]), &p);
                match s(&x["op"]) {
                    "write" => v.write_file(&uri, Arc::from(text(&x["text"]))),
                    "remove" => v.remove_file(&uri),
                    "read" => { v.get_source(&uri); }
                    "mkdir" => std::fs::create_dir_all(&real).unwrap(),
                    "put" | "raw" => {
                        std::fs::create_dir_all(real.parent().unwrap()).unwrap();
                        let t = text(&x["text"]);
                        std::fs::write(&real, if s(&x["op"]) == "raw" { RAW } else { t.as_bytes() }).unwrap()
                    }
                    "delete" => if real.is_dir() { std::fs::remove_dir_all(&real).unwrap() } else { std::fs::remove_file(&real).unwrap() },
                    o => panic!("operation {o}"),
                }
                look(&v, &site, x, &mut seen, &mut used, since).map_err(|m| (k, m))?;
            }
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&site.at);
        match r {
            Ok(Ok(())) => sum.sample(json!(h)),
            Ok(Err((k, m))) => sum.bad(json!({"what": m, "after": k + 1, "relative_root": relative, "behaviour": h})),
            Err(m) => sum.bad(json!({"what": format!("panic: {m}"), "relative_root": relative, "behaviour": h})),
        }
    }
}

fn main() {
    quiet_panics();
    let mut sum = Summary::new();
    // FILE DIRECTORY both|half: in the current directory
    // with an absolute root, a relative one, or each for half of the behaviours
    let both = arg(3) == "both";
    run(&arg(1), &arg(2), false, both, &mut sum);
    run(&arg(1), &arg(2), true, both, &mut sum);
    sum.print();
}
