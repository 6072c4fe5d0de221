//! Documents and formatting rules: replay of the Printer and Formatter specifications.
#![feature(new_range_api)]
mod comments;
mod mini;
use mini::*;
use vf_util::*;

fn docs(path: &str) {
    let mut sum = Summary::new();
    for (n, r) in read_lines(path).enumerate() {
        let k = n / 7 + n;
        let d = doc(&r["doc"], k);
        for (cfg, ind, nl) in configs(&r["cfg"], n) {
            sum.evaluated += 1;
            let want = expected(&r["out"], k, &ind, nl);
            match guard(|| d.render(cfg)) {
                Ok(got) if got == want => {}
                Ok(got) => sum.bad(json!({"document": format!("{d:?}"), "config": r["cfg"], "printed": got, "expected": want})),
                Err(e) => sum.bad(json!({"document": format!("{d:?}"), "panic": e})),
            }
        }
        if n % 5000 == 0 { sum.sample(json!({"document": format!("{d:?}"), "config": r["cfg"], "out": r["out"]})) }
    }
    sum.print();
}

struct Rule { name: String, on: String, does: String, prio: u8, hates: bool, clashing: Vec<String> }
impl Rule {
    fn yields<'a>(&self, inner: Document<'a>) -> Option<Document<'a>> {
        match self.does.as_str() { "pass" => None, "hide" => Some(Document::Nil), _ => Some(Document::concat(vec![Document::text("<"), inner, Document::text("z")])) }
    }
}
impl FormatRule<Mini> for Rule {
    fn name(&self) -> &str { &self.name }
    fn priority(&self) -> u8 { self.prio }
    fn applies_to_node(&self, n: &RedNode<Mini>) -> bool { ["container", "statement", "plain", "within", "below"].contains(&self.on.as_str()) && n.green.kind.0 == node_kind(&self.on) }
    // "comma" rules look at the text themselves
    fn applies_to_token(&self, t: &RedLeaf<Mini>) -> bool { match self.on.as_str() { "comma" => t.kind.0 == 2, "other" => t.kind.0 == 3, "punct" => t.kind.0 == 2, "inner" => t.kind.0 == 3, _ => false } }
    fn apply_node<'a>(&self, n: &RedNode<Mini>, c: &FormatContext<Mini>, s: &'a str, children: &dyn Fn(&RedNode<Mini>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
        assert!(c.source.as_deref() == Some(s) && c.is_inside(n.green.kind));
        assert_eq!(std::iter::successors(c.path.as_ref(), |p| p.parent.as_ref()).count(), c.depth);
        if self.does == "pass" || (self.on == "within" && !c.is_inside(K(1))) || (self.on == "below" && c.parent_kind() != Some(K(2))) { return Ok(None) }
        Ok(self.yields(children(n)?))
    }
    fn apply_token<'a>(&self, t: &RedLeaf<Mini>, c: &FormatContext<Mini>, source: &'a str) -> FormatResult<Option<Document<'a>>> {
        let text = &source[t.span.start..t.span.end];
        if (self.on == "comma" && text != ",") || (self.on == "punct" && text == ",") || (self.on == "inner" && !c.is_inside(K(2))) { return Ok(None) }
        Ok(self.yields(Document::text(text)))
    }
    fn conflicts_with(&self, o: &dyn FormatRule<Mini>) -> bool { self.hates && self.clashing.iter().any(|n| n == o.name()) }
}
/// The rules of a behaviour, added one by one; a rule may be refused.
fn add(f: &mut Formatter<Mini>, r: &Value) -> Result<(), String> {
    let rules = arr(&r["rules"]);
    for (i, x) in rules.iter().enumerate() {
        let x0 = &x["rule"];
        let on = s(&x0["on"]).to_string();
        let clashing = rules.iter().enumerate().filter(|(_, y)| s(&y["rule"]["on"]) == on).map(|(j, _)| format!("r{j}")).collect();
        let ok = f.add_rule(Box::new(Rule { name: format!("r{i}"), on, does: s(&x0["does"]).into(), prio: u(&x0["prio"]) as u8, hates: x0["hates"].as_bool().unwrap(), clashing })).is_ok();
        if ok != x["ok"].as_bool().unwrap() { return Err(format!("rule {i} accepted: {ok}")) }
    }
    Ok(())
}
fn trees(path: &str) {
    let mut sum = Summary::new();
    trees_with(&mut sum, path, add);
    sum.print();
}
fn main() {
    quiet_panics();
    match arg(1).as_str() { "docs" => docs(&arg(2)), "trees" => trees(&arg(2)), "texts" => comments::texts(&arg(2)), "held" => comments::held(&arg(2)), x => panic!("mode {x}") }
}
