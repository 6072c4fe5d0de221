//! What programs spell in `doc!`, `define_rules!`, `json!` and with derived conversions: replay of the Notation specification.
//! The programs are written from the specification's terms before this is compiled.
#![feature(new_range_api)]
#![allow(dead_code, unused)]
mod mini;
use mini::*;
use oak_json::ast::JsonValue;
use oak_macros::json;
use oak_pretty_print::*;
use vf_util::{json as record, *};

pub fn w(s: &'static str) -> &'static str { s }
pub fn yes() -> bool { std::hint::black_box(true) }
pub fn one() -> f64 { 1.0 }
// names that begin like words of the notations
pub fn nils(s: &str) -> &str { s }
pub fn line_of(s: &str) -> String { s.into() }
pub fn soft_lines(s: &str) -> &str { s }
pub fn hard(s: &str) -> &str { s }
pub fn groups(d: Document) -> Document { d }
pub fn indented(d: Document) -> Document { d }
pub fn joined(d: Document, _n: usize) -> Document { d }
pub fn nulls<T>(t: T) -> T { t }
pub fn trues<T>(t: T) -> T { t }
pub fn same<T>(t: T) -> T { t }

pub fn node_role<L: Language>(n: &RedNode<L>) -> &'static str {
    use oak_core::language::UniversalElementRole::*;
    match n.green.kind.role().universal() { Container => "container", Statement => "statement", _ => "plain" }
}
pub fn token_role<L: Language>(t: &RedLeaf<L>) -> &'static str { if t.kind.role().universal() == UniversalTokenRole::Punctuation { "punct" } else { "other" } }
pub fn text<'a, L: Language>(t: &RedLeaf<L>, s: &'a str) -> &'a str { &s[t.span.start..t.span.end] }

#[derive(AsDocument)]
pub struct Newtype<'a>(Document<'a>);
#[derive(AsDocument)]
pub struct Named<'a> { it: Document<'a> }
#[derive(AsDocument)]
pub struct Generic<T: AsDocument>(Option<T>);
#[derive(AsDocument)]
pub struct Where<T>
where T: AsDocument
{
    it: T,
}
#[derive(AsDocument)]
pub struct Pair<'a>(Document<'a>, u8);
#[derive(AsDocument)]
pub struct Unit;
#[derive(AsDocument)]
#[oak(doc = group([_self.left, indent([soft_line, &_self.it]), soft_line, _self.right.to_string()]))]
pub struct Frame<'a> { it: Document<'a>, left: &'a str, right: char }
#[derive(AsDocument)]
#[oak(doc = &_self.0, line, &_self.1)]
pub struct Sides<'a>(Document<'a>, String);
#[derive(AsDocument)]
pub enum Shape<'a> {
    Plain,
    Tuple(Document<'a>),
    Variant { it: Document<'a> },
    Quiet(Document<'a>, u8),
    QuietNamed { it: Document<'a>, n: u8 },
    #[oak(doc = ["(", _self, ")"])]
    Bracketed(Document<'a>),
    #[oak(doc = "(", _self, ")")]
    BracketedNamed { it: Document<'a> },
    #[oak(doc = "i")]
    Fixed(u8, Document<'a>),
    Within(Box<Shape<'a>>),
}

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/target/cases.rs"));

fn agrees(v: &JsonValue, e: &Value) -> bool {
    match (v, s(&e["k"])) {
        (JsonValue::Null(_), "null") => true,
        (JsonValue::Boolean(b), "bool") => e["b"] == b.value,
        (JsonValue::Number(n), "num") => n.value * 2.0 == e["n"].as_f64().unwrap(),
        (JsonValue::String(x), "text") => e["s"] == x.value,
        (JsonValue::Array(a), "array") => a.elements.len() == arr(&e["vs"]).len() && a.elements.iter().zip(arr(&e["vs"])).all(|(x, y)| agrees(x, y)),
        (JsonValue::Object(o), "object") => o.fields.len() == arr(&e["keys"]).len() && o.fields.iter().zip(arr(&e["keys"]).iter().zip(arr(&e["vs"]))).all(|(f, (k, y))| k == &f.name.value && agrees(&f.value, y)),
        _ => false,
    }
}
fn main() {
    quiet_panics();
    let mut sum = Summary::new();
    match arg(1).as_str() {
        "docs" => for (i, r) in read_lines(&arg(2)).enumerate() {
            let want = doc(&r["doc"], 0);
            DOCS[u(&r["case"])](&mut |got: &Document| for (cfg, ind, nl) in configs(&r["cfg"], i) {
                sum.evaluated += 1;
                // as the specification lays it out, and as the meaning is laid out for other widths
                let mut ok = guard(|| got.render(cfg.clone())) == Ok(expected(&r["out"], 0, &ind, nl));
                for width in [0, 2, 7, 12, 30, 100] {
                    let c = cfg.clone().with_max_width(width);
                    ok &= guard(|| got.render(c.clone())) == guard(|| want.render(c.clone()));
                }
                if !ok { sum.bad(record!({"notation": format!("{}doc!({})", s(&r["before"]), s(&r["spelled"])), "is": format!("{got:?}"), "means": format!("{want:?}")})) }
                if i % 100 == 0 { sum.sample(record!({"notation": r["spelled"], "is": format!("{got:?}")})) }
            });
        },
        "json" => for r in read_lines(&arg(2)) {
            sum.evaluated += 1;
            let got = JSONS[u(&r["case"])]();
            if !agrees(&got, &r["value"]) { sum.bad(record!({"notation": format!("json!({})", s(&r["spelled"])), "is": got.to_string(), "means": r["value"]})) }
        },
        "rules" => trees_with(&mut sum, &arg(2), |f, r| RULES[u(&r["case"])]().into_iter().try_for_each(|x| f.add_rule(x).map_err(|e| e.to_string()))),
        x => panic!("mode {x}"),
    }
    sum.print();
}
