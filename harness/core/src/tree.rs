//! Tree navigation: replay of specification trees.
#![feature(new_range_api)]
mod lang;
use lang::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::source::SourceText;
use oak_core::tree::{Cursor, GreenLeaf, GreenNode, GreenTree, RedNode, RedTree};
use oak_core::visitor::{PreOrder, Visitor};
use vf_util::*;

struct El { leaf: bool, len: usize, start: usize, ch: Vec<usize>, mv: Vec<usize>, childat: Vec<usize>, leafat: Vec<usize>, last: usize }
fn ints(v: &Value) -> Vec<usize> { arr(v).iter().map(u).collect() }
fn load(h: &Value) -> Vec<El> {
    let mut r = vec![El { leaf: false, len: 0, start: 0, ch: vec![], mv: vec![], childat: vec![], leafat: vec![], last: 0 }];
    for e in arr(&h["elems"]) {
        r.push(El { leaf: e["leaf"].as_bool().unwrap(), len: u(&e["len"]), start: u(&e["start"]), ch: ints(&e["ch"]), mv: ints(&e["move"]), childat: ints(&e["childat"]), leafat: ints(&e["leafat"]), last: u(&e["last"]) });
    }
    r
}
/// Kinds: distinct per element, or the same for all (then equal subtrees are interned and shared).
struct Plan<'x> { e: &'x [El], distinct: bool, scale: usize }
impl<'x> Plan<'x> {
    fn kind(&self, i: usize) -> u32 { if self.distinct { 10 + i as u32 } else if self.e[i].leaf { 7 } else { 8 } }
    fn green<'a>(&self, a: &'a SyntaxArena, i: usize, pool: &mut Vec<&'a GreenNode<'a, Mini>>) -> GreenTree<'a, Mini> {
        if self.e[i].leaf { return GreenTree::Leaf(GreenLeaf::new(T(self.kind(i)), (self.e[i].len * self.scale) as u32)); }
        let ch: Vec<_> = self.e[i].ch.iter().map(|&c| self.green(a, c, pool)).collect();
        let n = GreenNode::new(K(self.kind(i)), a.alloc_slice_copy(&ch));
        if !self.distinct { if let Some(p) = pool.iter().find(|p| ***p == n) { return GreenTree::Node(p); } }
        let r: &'a GreenNode<'a, Mini> = a.alloc(n);
        pool.push(r);
        GreenTree::Node(r)
    }
    /// Is the red element the specification's element i, seen with the root at `base`?
    fn is(&self, t: &RedTree<Mini>, i: usize, base: usize) -> Result<(), String> {
        let e = &self.e[i];
        let (a, b) = (base + e.start * self.scale, base + (e.start + e.len) * self.scale);
        let sp = t.span();
        let k: K = t.kind();
        if sp.start != a || sp.end != b || k.0 != self.kind(i) || t.as_leaf().is_some() != e.leaf || t.as_node().is_some() == e.leaf {
            return Err(format!("element {i} is [{a},{b}) kind {} leaf {}, got {sp:?} kind {} leaf {}", self.kind(i), e.leaf, k.0, t.as_leaf().is_some()));
        }
        Ok(())
    }
    fn at(&self, c: &Cursor<Mini>, i: usize) -> Result<(), String> {
        let e = &self.e[i];
        let g = c.current();
        let k = match g { GreenTree::Node(n) => n.kind().0, GreenTree::Leaf(l) => l.kind().0 };
        if c.offset() != e.start * self.scale || c.len() != e.len * self.scale || c.end_offset() != (e.start + e.len) * self.scale || k != self.kind(i) || g.is_leaf() != e.leaf || c.as_node().is_some() == e.leaf {
            return Err(format!("cursor at element {i} [{},+{}) kind {}: got offset {} len {} kind {k}", e.start * self.scale, e.len * self.scale, self.kind(i), c.offset(), c.len()));
        }
        Ok(())
    }
}
fn apply(c: &mut Cursor<Mini>, op: usize) -> bool { match op { 0 => c.step_into(), 1 => c.step_over(), 2 => c.step_out(), 3 => c.step(), _ => c.step_next() } }

struct Log { v: Vec<(usize, usize, u32)> }
impl<'a> Visitor<'a, Mini> for Log {
    fn visit_node(&mut self, n: RedNode<'a, Mini>) { self.v.push((n.span().start, n.span().end, n.element_type().0)); self.walk_node(n); }
    fn visit_token(&mut self, t: oak_core::tree::RedLeaf<Mini>) { self.v.push((t.span.start, t.span.end, t.kind.0)); }
}
fn opt(p: &Plan, got: Option<RedTree<Mini>>, want: usize, base: usize, what: &str) -> Result<(), String> {
    match (got, want) { (None, 0) => Ok(()), (Some(t), w) if w > 0 => p.is(&t, w, base).map_err(|m| format!("{what}: {m}")), (g, w) => Err(format!("{what}: expected element {w}, got {:?}", g.map(|t| t.span()))) }
}

fn check(e: &[El], distinct: bool, scale: usize, base: usize, depth: usize, rng: &mut Rng, moves: &mut usize) -> Result<(), String> {
    let a = SyntaxArena::new(0);
    let p = Plan { e, distinct, scale };
    let n = e.len() - 1;
    let g = p.green(&a, 1, &mut vec![]);
    let root = RedNode::new(g.as_node().unwrap(), base);
    // every element, reached through children()
    let mut red: Vec<Option<RedTree<Mini>>> = vec![None; n + 1];
    red[1] = Some(RedTree::Node(root));
    let text = SourceText::new("x".repeat(base) + &(0..e[1].len * scale).map(|k| char::from(b'a' + (k % 26) as u8)).collect::<String>() + "yy");
    for i in 1..=n {
        let t = red[i].ok_or(format!("element {i} was not reached"))?;
        p.is(&t, i, base)?;
        let sp = t.span();
        if t.text(&text) != &text.text()[sp.start..sp.end] { return Err(format!("text of element {i}")); }
        let kids: Vec<RedTree<Mini>> = t.children().collect();
        if kids.len() != e[i].ch.len() { return Err(format!("element {i} has children {:?}, got {}", e[i].ch, kids.len())); }
        for (k, c) in kids.iter().enumerate() { p.is(c, e[i].ch[k], base)?; red[e[i].ch[k]] = Some(*c); }
        if let RedTree::Node(nd) = t {
            if nd.green().children_count() != kids.len() || nd.green().has_children() == kids.is_empty() || nd.green().child_at(kids.len()).is_some() { return Err(format!("child count of {i}")); }
            for k in 0..kids.len() {
                p.is(&nd.child_at(k), e[i].ch[k], base)?;
                if nd.child_at(k) != kids[k] { return Err(format!("child_at({k}) of {i} differs from children()")); }
                if nd.green().child_at(k).map(|c| c.len() as usize) != Some(e[e[i].ch[k]].len * scale) { return Err(format!("green child_at({k}) of {i}")); }
            }
            for o in 0..e[i].childat.len() {
                // offsets o..o+1 of the specification are `scale` bytes of the text; try the first, the last and one below the root
                for off in [base + o * scale, base + o * scale + scale - 1] {
                    let w = e[i].childat[o];
                    opt(&p, nd.child_at_offset(off), w, base, &format!("child_at_offset({off}) of {i}"))?;
                    let wi = e[i].ch.iter().position(|&c| c == w);
                    if nd.child_index_at_offset(off) != wi { return Err(format!("child_index_at_offset({off}) of {i} = {:?}, expected {wi:?}", nd.child_index_at_offset(off))); }
                    opt(&p, nd.leaf_at_offset(off).map(RedTree::Leaf), e[i].leafat[o], base, &format!("leaf_at_offset({off}) of {i}"))?;
                }
            }
            for off in [0, base.wrapping_sub(1)] { if off < base && (nd.child_at_offset(off).is_some() || nd.leaf_at_offset(off).is_some() || nd.child_index_at_offset(off).is_some()) { return Err(format!("element {i} claims offset {off} before its start")); } }
            // traversals of the subtree
            let want: Vec<(usize, usize, u32)> = (i..=e[i].last).map(|k| (base + e[k].start * scale, base + (e[k].start + e[k].len) * scale, p.kind(k))).collect();
            let got: Vec<_> = PreOrder::new(t).map(|x| (x.span().start, x.span().end, x.kind::<K>().0)).collect();
            if got != want { return Err(format!("preorder of {i}: {got:?}, expected {want:?}")); }
            let mut l = Log { v: vec![] };
            l.visit_node(nd);
            if l.v != want { return Err(format!("visitor on {i}: {:?}, expected {want:?}", l.v)); }
        }
    }
    // cursor: every sequence of `depth` moves on small trees, random walks on larger ones
    let groot = g.as_node().unwrap();
    let start = Cursor::new(groot);
    p.at(&start, 1)?;
    fn dfs(p: &Plan, c: &Cursor<Mini>, i: usize, d: usize, moves: &mut usize) -> Result<(), String> {
        if d == 0 { return Ok(()); }
        for op in 0..5 {
            let w = p.e[i].mv[op];
            let mut c2 = c.clone();
            let ok = apply(&mut c2, op);
            *moves += 1;
            if ok != (w != 0) { return Err(format!("move {op} from element {i}: returned {ok}, expected target {w}")); }
            if w == 0 && op >= 3 { continue; }
            let to = if w == 0 { i } else { w };
            p.at(&c2, to).map_err(|m| format!("after move {op} from {i}: {m}"))?;
            if w != 0 { dfs(p, &c2, to, d - 1, moves)?; }
        }
        Ok(())
    }
    if n <= 7 { dfs(&p, &start, 1, depth, moves)?; }
    let mut c = start.clone();
    let mut i = 1;
    for _ in 0..60 {
        let op = rng.below(5);
        let w = e[i].mv[op];
        let ok = apply(&mut c, op);
        *moves += 1;
        if ok != (w != 0) { return Err(format!("move {op} from element {i}: returned {ok}, expected target {w}")); }
        if w == 0 && op >= 3 { c = start.clone(); i = 1; continue; }
        if w != 0 { i = w; }
        p.at(&c, i).map_err(|m| format!("in a walk: {m}"))?;
    }
    // the whole traversal by step()
    let mut c = start.clone();
    for i in 2..=n { if !c.step() { return Err(format!("step() ended before element {i}")); } p.at(&c, i)?; }
    if c.step() { return Err("step() goes on after the last element".into()); }
    Ok(())
}

fn main() {
    quiet_panics();
    let (mode, path, seed, depth) = (arg(1), arg(2), argn(3), argn(4) as usize);
    assert_eq!(mode, "navigate");
    let mut sum = Summary::new();
    let mut rng = Rng::new(seed);
    let mut moves = 0;
    for h in read_lines(&path) {
        sum.evaluated += 1;
        let e = load(&h);
        for (distinct, scale, base) in [(true, 1, 0), (false, 1, 5), (true, 3, 1), (false, 2, 0)] {
            let r = guard(|| check(&e, distinct, scale, base, if scale == 1 { depth } else { 3 }, &mut rng, &mut moves));
            if let Err(m) = match r { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) } {
                sum.bad(json!({"what": m, "tree": arr(&h["elems"]).iter().map(|x| json!([x["leaf"], x["len"], x["start"], x["parent"]])).collect::<Vec<_>>(), "shared": !distinct, "scale": scale, "base": base}));
                break;
            }
        }
        if sum.evaluated % 400 == 7 { sum.sample(json!(arr(&h["elems"]).iter().map(|x| json!([x["leaf"], x["len"], x["parent"]])).collect::<Vec<_>>())); }
    }
    sum.extra.insert("moves".into(), json!(moves));
    sum.print();
}
