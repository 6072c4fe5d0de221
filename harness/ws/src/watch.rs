//! Replays behaviours of the Watch specification: what a DiskWatcher reports of changes to a directory tree.
//! Works only below the current directory, which the check makes for it.
use oak_vfs::{DiskWatcher, VfsEvent, VfsWatcher};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use vf_util::*;

#[derive(Default)]
struct Events { all: Mutex<Vec<(&'static str, String)>>, more: Condvar }
struct Site { tree: PathBuf, sync: PathBuf, idle: PathBuf, k: usize, events: Arc<Events>, watcher: DiskWatcher }

/// A watcher holds a kernel resource until its thread has ended: wait for the former ones.
fn watcher(events: &Arc<Events>) -> DiskWatcher {
    for _ in 0..500 {
        let e = events.clone();
        match DiskWatcher::new(move |x| {
            e.all.lock().unwrap().push(match x { VfsEvent::Changed(u) => ("changed", u), VfsEvent::Created(u) => ("created", u), VfsEvent::Removed(u) => ("removed", u) });
            e.more.notify_all()
        }) {
            Ok(w) => return w,
            Err(_) => std::thread::sleep(Duration::from_millis(20)),
        }
    }
    panic!("no watcher")
}

impl Site {
    fn real(&self, p: &[String]) -> PathBuf { p.iter().fold(self.tree.clone(), |a, n| a.join(n)) }
    fn uri(&self, p: &[String]) -> String { self.real(p).display().to_string() }
    /// Everything reported so far: a later change elsewhere has been reported, too.
    fn settled(&mut self) -> Result<Vec<(&'static str, String)>, String> {
        self.k += 1;
        let mark = self.sync.join(format!("m{}", self.k));
        std::fs::write(&mark, "").unwrap();
        let uri = mark.display().to_string();
        let until = Instant::now() + Duration::from_secs(20);
        let mut all = self.events.all.lock().unwrap();
        while !all.iter().any(|(k, u)| *k == "created" && *u == uri) {
            let left = until.saturating_duration_since(Instant::now());
            if left.is_zero() { return Err("a new file in a watched directory is not reported".into()) }
            all = self.events.more.wait_timeout(all, left).unwrap().0
        }
        drop(all);
        std::fs::remove_file(&mark).unwrap();
        // requests are answered between batches of reports: new directories are watched by now
        let idle = self.idle.display().to_string();
        self.watcher.watch(&idle).map_err(|e| format!("watch: {e}"))?;
        self.watcher.unwatch(&idle).map_err(|e| format!("unwatch: {e}"))?;
        let sync = self.sync.clone();
        Ok(std::mem::take(&mut *self.events.all.lock().unwrap()).into_iter().filter(|(_, u)| !Path::new(u).starts_with(&sync)).collect())
    }
}
fn path(v: &Value) -> Vec<String> { arr(v).iter().map(|x| match s(x) { "a" => "a", "b" => "b \u{e9}", x => x }.to_string()).collect() }

fn step(site: &mut Site, op: &Value, n: usize) -> Result<(), String> {
    let p = path(&op["path"]);
    let (real, uri) = (site.real(&p), site.uri(&p));
    match s(&op["op"]) {
        "watch" | "unwatch" => {
            let watch = s(&op["op"]) == "watch";
            let r = if watch { site.watcher.watch(&uri) } else { site.watcher.unwatch(&uri) };
            if r.is_ok() != op["ok"].as_bool().unwrap() { return Err(format!("{}: {r:?}", s(&op["op"]))) }
        }
        "unwatchall" => {
            site.watcher.unwatch_all().map_err(|e| format!("unwatch_all: {e}"))?;
            // the directory of marks is not watched any more, either
            let mark = site.sync.join("z");
            std::fs::write(&mark, "").unwrap();
            std::fs::remove_file(&mark).unwrap();
            site.watcher.watch(&site.sync.display().to_string()).map_err(|e| format!("watch: {e}"))?;
            site.settled()?;
        }
        "write" => std::fs::write(&real, format!("{n}")).unwrap(),
        "mkdir" => std::fs::create_dir(&real).unwrap(),
        "remove" => if real.is_dir() { std::fs::remove_dir_all(&real).unwrap() } else { std::fs::remove_file(&real).unwrap() },
        "rename" => std::fs::rename(&real, site.real(&path(&op["to"]))).unwrap(),
        x => panic!("operation {x}"),
    }
    let mut got: BTreeMap<String, BTreeSet<&str>> = BTreeMap::new();
    for (k, u) in site.settled()? { got.entry(u).or_default().insert(k); }
    for c in arr(&op["reports"]) {
        let uri = site.uri(&path(&c["path"]));
        let kinds = got.remove(&uri).unwrap_or_default();
        let is = s(&c["is"]);
        let fits = match is {
            "new" => kinds.contains("created") && !kinds.contains("removed"),
            "gone" => kinds.contains("removed") && !kinds.contains("created"),
            "written" => kinds.contains("changed") && kinds.len() == 1,
            // by a file moved there
            "replaced" => !kinds.is_empty() && !kinds.contains("removed"),
            x => panic!("report {x}"),
        };
        if !fits { return Err(format!("{uri:?} is {is}, reported: {kinds:?}")) }
    }
    if let Some((u, k)) = got.pop_first() { return Err(format!("{u:?} reported: {k:?}")) }
    Ok(())
}

fn main() {
    quiet_panics();
    let mut sum = Summary::new();
    let base = std::env::current_dir().unwrap();
    for (n, h) in read_lines(&arg(1)).enumerate() {
        sum.evaluated += 1;
        let h = arr(&h);
        let top = base.join(format!("t{n}"));
        let (tree, sync, idle) = (top.join("tree"), top.join("sync"), top.join("idle"));
        std::fs::create_dir_all(&tree).unwrap();
        std::fs::create_dir(&sync).unwrap();
        std::fs::create_dir(&idle).unwrap();
        let r = guard(|| -> Result<(), (usize, String)> {
            let events = Arc::new(Events::default());
            let mut site = Site { tree, sync, idle, k: 0, watcher: watcher(&events), events };
            let mut there: Vec<_> = arr(&h[0]["tree"]).iter().map(|x| (path(&x["path"]), s(&x["kind"]) == "dir")).collect();
            there.sort();
            for (p, dir) in there { if dir { std::fs::create_dir(site.real(&p)).unwrap() } else { std::fs::write(site.real(&p), "x").unwrap() } }
            site.watcher.watch(&site.sync.display().to_string()).map_err(|e| (0, format!("watch: {e}")))?;
            for p in arr(&h[0]["roots"]) { let u = site.uri(&path(p)); site.watcher.watch(&u).map_err(|e| (0, format!("watch: {e}")))? }
            site.settled().map_err(|m| (0, m))?;
            for (k, op) in h.iter().enumerate().skip(1) { step(&mut site, op, k).map_err(|m| (k, m))? }
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&top);
        match r {
            Ok(Ok(())) => if n % 500 == 0 { sum.sample(json!(h)) },
            Ok(Err((k, m))) => {
                let silent = m.starts_with("a new file");
                sum.bad(json!({"what": m, "at": k, "behaviour": h}));
                // each further one would be waited for
                if silent { break }
            }
            Err(m) => sum.bad(json!({"what": format!("panic: {m}"), "behaviour": h})),
        }
    }
    sum.print();
}
