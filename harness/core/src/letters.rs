//! The letters of the Text specification as characters, and position conversion.
use vf_util::*;

thread_local! { static VARIANT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// Which representatives the letter classes stand for (two-, three- and four-byte characters); one choice per behaviour.
pub fn set_variant(k: usize) { VARIANT.with(|v| v.set(k)) }
pub fn ch(x: &str) -> String {
    let k = VARIANT.with(|v| v.get());
    let p = |cs: &[char]| cs[k % cs.len()].to_string();
    match x {
        "t" => "\t".into(), "n" => "\n".into(), "r" => "\r".into(), "L" => "\u{2028}".into(),
        "e" => p(&['\u{e9}', '\u{7ff}', '\u{e9}', '\u{b5}', '\u{391}']),
        "c" => p(&['\u{4e2d}', '\u{800}', '\u{ffff}', '\u{feff}', '\u{d7ff}', '\u{200d}', '\u{e000}']),
        "g" => p(&['\u{1f600}', '\u{f0000}', '\u{10ffff}', '\u{20000}', '\u{10000}', '\u{e0001}']),
        "q" => "\"".into(), "h" => "#".into(),
        "B" => format!("x{}", "\u{df}".repeat(2500)),
        y => y.into(),
    }
}
/// A realised text: every letter repeated `rep` times; `off[k]` is the byte offset of position k.
#[derive(Clone, Default)]
pub struct Text { pub s: String, pub off: Vec<usize> }
pub fn text(v: &Value, rep: usize) -> Text {
    let mut t = Text { s: String::new(), off: vec![0] };
    for x in arr(v) { for _ in 0..rep { t.s += &ch(s(x)); } t.off.push(t.s.len()); }
    t
}
