//! What the languages of the repository do with texts put together from fragments.
#![feature(new_range_api)]
mod engine;
mod protocol;
mod registry;
use vf_util::*;

pub const FRAGMENTS: [&str; 50] = [
    "a", " ", "\n", "1", "\"s\"", "é", "//c", "{", "}", ";", "x1", "\"", "'", "+", "==", "#c", "/*", "*/", "中", "😀", "(", ")", ",", ".", ":", "<", ">", "if", "_b", "\t", "\r\n", "0x1F", "1.5e3", "'c'", "--", "$", "@", "`", "\\", "fn", "[", "]", "%", "!", "&", "|", "?", "~", "^", "-",
];
fn main() {
    quiet_panics();
    match arg(1).as_str() {
        "list" => println!("{}", json!(registry::names())),
        "fragments" => println!("{}", FRAGMENTS.len()),
        "observe" => {
            // observe LANGUAGE SEQUENCES OUT PROGRESS FROM lex|all: goes on from text number FROM
            let texts: Vec<String> = read_lines(&arg(3)).map(|q| arr(&q).iter().map(|i| FRAGMENTS[u(i) - 1]).collect()).collect();
            let mut job = protocol::Job {
                lang: arg(2),
                texts: std::sync::Arc::new(texts),
                from: argn(6) as usize,
                only_lex: arg(7) == "lex",
                progress: std::fs::File::create(arg(5)).unwrap(),
                out: LineWriter::new(&arg(4)),
                seen: Default::default(),
                evaluated: 0,
            };
            // deep recursion on a text is not what is observed here
            let job = std::thread::Builder::new().stack_size(512 << 20).spawn(move || { registry::dispatch(&job.lang.clone(), &mut job); job }).unwrap().join().unwrap();
            let n = job.evaluated;
            job.out.done();
            println!("{}", json!({"evaluated": n}));
        }
        x => panic!("mode {x}"),
    }
}
