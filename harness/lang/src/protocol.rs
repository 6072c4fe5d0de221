use std::collections::HashSet;
use vf_util::*;
pub struct Job {
    pub lang: String,
    pub texts: std::sync::Arc<Vec<String>>,
    pub from: usize,
    pub only_lex: bool,
    pub progress: std::fs::File,
    pub out: LineWriter,
    pub seen: HashSet<String>,
    pub evaluated: usize,
}
impl Job {
    pub fn put(&mut self, _: usize, mut v: Value, text: &str) {
        self.evaluated += 1;
        if self.seen.insert(v.to_string()) { v["text"] = json!(text); self.out.put(&v); self.out.sync() }
    }
}
