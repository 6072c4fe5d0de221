//! A strict reader for the small part of XML that pictures are written in.
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct El { pub name: String, pub attrs: BTreeMap<String, String>, pub children: Vec<El>, pub text: String }
impl El {
    pub fn a(&self, k: &str) -> Result<&str, String> { self.attrs.get(k).map(|s| s.as_str()).ok_or(format!("<{}> has no {}", self.name, k)) }
    pub fn n(&self, k: &str) -> Result<f64, String> { num(self.a(k)?) }
    pub fn all<'a>(&'a self, name: &str, out: &mut Vec<&'a El>) {
        if self.name == name { out.push(self) }
        for c in &self.children { c.all(name, out) }
    }
}
pub fn num(s: &str) -> Result<f64, String> {
    let v: f64 = s.trim().parse().map_err(|_| format!("no number: {s}"))?;
    if v.is_finite() { Ok(v) } else { Err(format!("not finite: {s}")) }
}

struct P<'a> { s: &'a [char], i: usize }
pub fn parse(s: &str) -> Result<El, String> {
    let cs: Vec<char> = s.chars().collect();
    let mut p = P { s: &cs, i: 0 };
    p.ws();
    let e = p.el()?;
    p.ws();
    if p.i != cs.len() { return Err("text after the root element".into()) }
    Ok(e)
}
impl P<'_> {
    fn peek(&self) -> char { self.s.get(self.i).copied().unwrap_or('\0') }
    fn ws(&mut self) { while self.peek().is_whitespace() { self.i += 1 } }
    fn eat(&mut self, c: char) -> Result<(), String> { if self.peek() == c { self.i += 1; Ok(()) } else { Err(format!("expected {c:?}, found {:?} at {}", self.peek(), self.i)) } }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        while self.peek().is_alphanumeric() || "-_:.".contains(self.peek()) && self.peek() != '\0' { self.i += 1 }
        if st == self.i { return Err(format!("expected a name at {st}, found {:?}", self.peek())) }
        Ok(self.s[st..self.i].iter().collect())
    }
    fn entity(&mut self) -> Result<char, String> {
        let st = self.i;
        self.eat('&')?;
        while self.peek() != ';' { if self.peek() == '\0' || self.i > st + 10 { return Err("unescaped &".into()) } self.i += 1 }
        let n: String = self.s[st + 1..self.i].iter().collect();
        self.i += 1;
        Ok(match n.as_str() {
            "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'',
            _ => {
                let code = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else if let Some(d) = n.strip_prefix('#') { d.parse().ok() } else { None };
                code.and_then(char::from_u32).ok_or(format!("unknown entity &{n};"))?
            }
        })
    }
    fn el(&mut self) -> Result<El, String> {
        self.eat('<')?;
        let mut e = El { name: self.name()?, ..El::default() };
        loop {
            let spaced = self.peek().is_whitespace();
            self.ws();
            match self.peek() {
                '/' => { self.i += 1; self.eat('>')?; return Ok(e) }
                '>' => { self.i += 1; break }
                _ => {
                    if !spaced { return Err(format!("attributes run together in <{}>", e.name)) }
                    let k = self.name()?;
                    self.ws(); self.eat('=')?; self.ws();
                    let q = self.peek();
                    if q != '"' && q != '\'' { return Err(format!("attribute {k} is not quoted")) }
                    self.i += 1;
                    let mut v = String::new();
                    while self.peek() != q {
                        match self.peek() { '<' | '\0' => return Err(format!("attribute {k} is broken")), '&' => v.push(self.entity()?), c => { v.push(c); self.i += 1 } }
                    }
                    self.i += 1;
                    if e.attrs.insert(k.clone(), v).is_some() { return Err(format!("<{}> has two attributes {k}", e.name)) }
                }
            }
        }
        loop {
            match self.peek() {
                '\0' => return Err(format!("<{}> is not closed", e.name)),
                '&' => { let c = self.entity()?; e.text.push(c) }
                '<' if self.s.get(self.i + 1) == Some(&'/') => {
                    self.i += 2;
                    let n = self.name()?;
                    self.ws(); self.eat('>')?;
                    if n != e.name { return Err(format!("<{}> is closed by </{n}>", e.name)) }
                    return Ok(e)
                }
                '<' => { let c = self.el()?; e.children.push(c) }
                c => { e.text.push(c); self.i += 1 }
            }
        }
    }
}
