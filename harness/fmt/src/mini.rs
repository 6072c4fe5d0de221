//! The language of the formatter's specification, and the texts and configurations of a behaviour.
pub use oak_core::{
    language::*,
    memory::arena::SyntaxArena,
    tree::{GreenLeaf, GreenNode, GreenTree, RedLeaf, RedNode},
};
pub use oak_pretty_print::*;
use vf_util::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct T(pub u8);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct K(pub u8);
impl From<T> for K { fn from(t: T) -> K { K(t.0) } }
impl TokenType for T {
    type Role = UniversalTokenRole;
    const END_OF_STREAM: Self = T(0);
    fn role(&self) -> UniversalTokenRole { match self.0 { 0 => UniversalTokenRole::Eof, 2 => UniversalTokenRole::Punctuation, _ => UniversalTokenRole::Name } }
}
impl ElementType for K {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole { match self.0 { 1 => UniversalElementRole::Container, 2 => UniversalElementRole::Statement, _ => UniversalElementRole::Expression } }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Mini;
impl Language for Mini {
    const NAME: &'static str = "mini";
    type TokenType = T;
    type ElementType = K;
    type TypedRoot = ();
}

/// The letters of the specification stand for characters of any width in bytes.
pub fn letter(x: &str, k: usize) -> String {
    match x {
        "," | ";" | " " | "<" | "(" | ")" | "z" => x.into(),
        _ => { let i = x.as_bytes()[0] as u32 - 97; match k % 4 { 0 => x.into(), 1 => char::from_u32(0xe0 + i).unwrap().into(), 2 => char::from_u32(0x4e00 + i).unwrap().into(), _ => char::from_u32([0x61, 0x1f600, 0x3b1, 0x20000][i as usize % 4] + i).unwrap().into() } }
    }
}
pub fn letters(v: &Value, k: usize) -> String { arr(v).iter().map(|x| letter(s(x), k)).collect() }
pub fn doc(v: &Value, k: usize) -> Document<'static> {
    match s(&v["k"]) {
        "nil" => Document::Nil,
        "line" => Document::Line,
        "soft" => Document::SoftLine,
        "softsp" => Document::SoftLineSpace,
        "hard" => Document::HardLine,
        "text" => Document::text(letters(&v["s"], k)),
        "cat" => Document::concat(arr(&v["ds"]).iter().map(|d| doc(d, k)).collect()),
        "group" => Document::group(doc(&v["d"], k)),
        "indent" => Document::indent(doc(&v["d"], k)),
        x => panic!("document {x}"),
    }
}
/// The ways the configuration of a behaviour can be set up: (configuration, indentation, line ending).
pub fn configs(c: &Value, k: usize) -> Vec<(FormatConfig, String, &'static str)> {
    let unit = u(&c["unit"]);
    let mut v = vec![(IndentStyle::Spaces(unit as u8), " ".repeat(unit))];
    if unit == 4 { v.push((IndentStyle::Tabs, "\t".into())) }
    let (le, nl) = [(LineEnding::Unix, "\n"), (LineEnding::Windows, "\r\n"), (LineEnding::Auto, "\n")][k % 3];
    v.into_iter().map(|(st, ind)| {
        let mut f = FormatConfig::new().with_indent_style(st).with_line_ending(le).with_max_width(u(&c["max"]));
        f.trim_trailing_whitespace = c["trim"].as_bool().unwrap();
        f.insert_final_newline = c["final"].as_bool().unwrap();
        assert!(f.indent_style == st && f.indent_text == ind && f.indent_size == unit && f.line_ending == le && f.line_ending_string() == nl && f.max_width == u(&c["max"]));
        (f, ind, nl)
    }).collect()
}
pub fn expected(out: &Value, k: usize, ind: &str, nl: &str) -> String { arr(out).iter().map(|x| match s(x) { "/" => nl.to_string(), ">" => ind.to_string(), y => letter(y, k) }).collect() }

pub fn node_kind(x: &str) -> u8 { match x { "container" => 1, "statement" => 2, _ => 0 } }
pub fn tree<'a>(v: &Value, a: &'a SyntaxArena, src: &mut String, k: usize) -> GreenTree<'a, Mini> {
    if v["k"] == "tok" {
        let t = letters(&v["s"], k);
        *src += &t;
        GreenTree::Leaf(GreenLeaf::new(T(if v["role"] == "punct" { 2 } else { 3 }), t.len() as u32))
    } else {
        let ch: Vec<_> = arr(&v["ch"]).iter().map(|c| tree(c, a, src, k)).collect();
        GreenTree::Node(a.alloc(GreenNode::new(K(node_kind(s(&v["role"]))), a.alloc_slice_copy(&ch))))
    }
}
/// Every tree formatted with the rules `add` gives the formatter, compared with the specification's text.
pub fn trees_with(sum: &mut Summary, path: &str, add: impl Fn(&mut Formatter<Mini>, &Value) -> Result<(), String>) {
    for (n, r) in read_lines(path).enumerate() {
        let k = n / 7 + n;
        let a = SyntaxArena::new(4096);
        let mut src = String::new();
        let GreenTree::Node(root) = tree(&r["tree"], &a, &mut src, k) else { unreachable!() };
        for (cfg, ind, nl) in configs(&r["cfg"], n) {
            sum.evaluated += 1;
            let res = guard(|| {
                let mut f = Formatter::<Mini>::new(cfg);
                add(&mut f, &r)?;
                f.format(&RedNode::new(root, 0), &src).map_err(|e| e.to_string())
            });
            let want = expected(&r["out"], k, &ind, nl);
            let changed = if nl == "\n" { r["changed"].as_bool().unwrap() } else { want != src };
            match res {
                Ok(Ok(o)) if o.content == want && o.changed == changed => {}
                Ok(Ok(o)) => sum.bad(json!({"tree": r["tree"], "rules": r["rules"], "config": r["cfg"], "formatted": o.content, "changed": o.changed, "expected": want, "expected_changed": changed})),
                Ok(Err(e)) | Err(e) => sum.bad(json!({"tree": r["tree"], "rules": r["rules"], "failed": e})),
            }
        }
        if n % 5000 == 0 { sum.sample(json!({"source": src, "rules": r["rules"], "out": r["out"]})) }
    }
}
