#![feature(new_range_api)]
//! Graphs, trees and plane figures of the specification are given to oak-visualize; its drawings and pictures are recorded.
mod lang;
mod xml;
use lang::{Mini, K, T};
use oak_core::tree::{GreenLeaf, GreenNode, GreenTree, RedNode, RedTree};
use oak_core::memory::arena::SyntaxArena;
use oak_visualize::graph::*;
use oak_visualize::layout::*;
use oak_visualize::tree::*;
use oak_visualize::{geometry::*, render::*, to_svg, Visualize};
use std::collections::{HashMap, HashSet};
use vf_util::*;

fn main() {
    quiet_panics();
    let mut s = Summary::new();
    match arg(1).as_str() {
        "plane" => for v in read_lines(&arg(2)) { judge(&mut s, &v, guard(|| plane(&v))) },
        m @ ("graphs" | "trees") => {
            let mut out = LineWriter::new(&format!("{}.drawings", arg(2)));
            let mut salt = argn(3) as usize;
            for v in read_lines(&arg(2)) {
                salt += 1;
                let mut recs = Vec::new();
                let r = guard(std::panic::AssertUnwindSafe(|| if m == "graphs" { graphs(&v, salt, &mut recs) } else { trees(&v, salt, &mut recs) }));
                for r in &recs { out.put(r) }
                judge(&mut s, &v, r);
            }
            let n = out.done();
            s.extra.insert("drawings".into(), json!(n));
        }
        x => panic!("mode {x}"),
    }
    s.print();
}
fn judge(s: &mut Summary, v: &Value, r: Result<Result<(), String>, String>) {
    s.evaluated += 1;
    match r { Ok(Ok(())) => s.sample(v.clone()), Ok(Err(e)) => s.bad(json!({"what": e, "case": v})), Err(p) => s.bad(json!({"what": format!("panic: {p}"), "case": v})) }
}
fn int(v: f64) -> Result<i64, String> { if v.is_finite() && v.abs() < 1e8 { Ok((v * 10.0).round() as i64) } else { Err(format!("not a coordinate: {v}")) } }
fn same<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, but the specification says {want:?}")) } }

// ---- plane figures ----
fn rect(v: &Value) -> Rect { Rect::from_xywh(i(&v["x"]) as f64, i(&v["y"]) as f64, i(&v["w"]) as f64, i(&v["h"]) as f64) }
fn plane(v: &Value) -> Result<(), String> {
    let p = Point::new(i(&v["p"][0]) as f64, i(&v["p"][1]) as f64);
    if let Some(ms) = v["maps"].as_array() {
        let mut t = Transform::identity();
        let mut q = p;
        for m in ms {
            let f = |k: &str| i(&m[k]) as f64;
            let one = match s(&m["k"]) {
                "move" => Transform::translate(f("e"), f("f")), "scale" => Transform::scale(f("a"), f("d")), "turn" => Transform::rotate(std::f64::consts::FRAC_PI_2),
                "none" => Transform::default(), _ => Transform { a: f("a"), b: f("b"), c: f("c"), d: f("d"), e: f("e"), f: f("f") },
            };
            q = one.transform_point(q);
            t = t.compose(&one);
        }
        let near = |a: Point, what: &str| { let w = Point::new(i(&v["moved"][0]) as f64, i(&v["moved"][1]) as f64); if a.distance_to(&w) < 1e-6 { Ok(()) } else { Err(format!("{what}: {a:?}, but the specification says {w:?}")) } };
        near(q, "one map after the other")?;
        return near(t.transform_point(p), "the composed map");
    }
    let (a, b) = (rect(&v["a"]), rect(&v["b"]));
    let touch = v["touch"].as_bool().unwrap();
    same("intersects", (a.intersects(&b), b.intersects(&a)), (touch, touch))?;
    same("contains_point", a.contains_point(p), v["holds"].as_bool().unwrap())?;
    let h = rect(&v["hull"]);
    same("union", (a.union(&b), b.union(&a)), (h, h))?;
    same("corners", Rect::from_points(a.bottom_left(), a.top_right()), a)?;
    same("moved away and back", a.translate(3.0, -5.0).translate(-3.0, 5.0), a)?;
    same("grown and shrunk", a.expand(2.0).expand(-2.0), a)
}

// ---- drawings ----
#[derive(Clone, Copy, Debug)]
enum Means { Bare, Json, Svg, Html }
/// What is drawn: names, labels and sizes of the nodes, the edges with both ends known.
struct Drawn { ids: Vec<String>, labels: Vec<String>, types: Vec<NodeType>, sizes: Vec<(f64, f64)>, up: Vec<Value>, depth: Vec<Value>, edges: Vec<(usize, usize, usize)>, acyclic: bool }
fn edge_label(k: usize) -> Option<String> { match k { 0 => None, 1 => Some("plain".into()), _ => Some(format!("e{k} <&\"'> ]]")) } }
fn edge_mark(l: Option<&str>) -> Result<usize, String> { (0..4).find(|k| edge_label(*k).as_deref() == l).ok_or(format!("unknown edge label {l:?}")) }
impl Drawn {
    fn rec(&self, rule: &str, boxes: Vec<Value>, lines: Vec<Value>, frame: Value, via: &str) -> Result<Value, String> {
        let sizes = self.sizes.iter().map(|(w, h)| Ok(json!([int(*w)?, int(*h)?]))).collect::<Result<Vec<_>, String>>()?;
        let edges: Vec<_> = self.edges.iter().map(|e| json!([e.0, e.1, e.2])).collect();
        Ok(json!({"rule": rule, "size": sizes, "up": self.up, "depth": self.depth, "edges": edges, "acyclic": self.acyclic, "boxes": boxes, "lines": lines, "frame": frame, "via": via}))
    }
    fn by_id(&self, id: &str) -> Result<usize, String> { self.ids.iter().position(|x| x == id).map(|p| p + 1).ok_or(format!("unknown node {id:?}")) }
    fn by_label(&self, l: &str) -> Result<usize, String> { self.labels.iter().position(|x| x == l).map(|p| p + 1).ok_or(format!("unknown label {l:?}")) }
}
fn boxed(k: usize, x: f64, y: f64, w: f64, h: f64) -> Result<Value, String> { Ok(json!([k, int(x)?, int(y)?, int(w)?, int(h)?])) }

fn bare(d: &Drawn, rule: &str, l: &Layout) -> Result<Value, String> {
    let mut boxes = Vec::new();
    for (id, n) in &l.nodes {
        let k = d.by_id(id)?;
        same("id of a placed node", n.id.as_str(), id.as_str())?;
        same("label of a placed node", n.label.as_str(), d.labels[k - 1].as_str())?;
        same("type of a placed node", n.node_type, d.types[k - 1])?;
        boxes.push(boxed(k, n.rect.origin.x, n.rect.origin.y, n.rect.size.width, n.rect.size.height)?);
    }
    let mut lines = Vec::new();
    for e in &l.edges {
        let (p, q) = match (e.points.first(), e.points.last()) { (Some(p), Some(q)) if e.points.len() >= 2 => (p, q), _ => return Err(format!("the edge from {:?} to {:?} has no line", e.from, e.to)) };
        lines.push(json!([d.by_id(&e.from)?, d.by_id(&e.to)?, edge_mark(e.label.as_deref())?, int(p.x)?, int(p.y)?, int(q.x)?, int(q.y)?]));
    }
    let b = &l.bounds;
    d.rec(rule, boxes, lines, boxed(0, b.origin.x, b.origin.y, b.size.width, b.size.height)?, "layout")
}
fn from_json(d: &Drawn, rule: &str, text: &str) -> Result<Value, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("the exported JSON cannot be read: {e}"))?;
    let f = |x: &Value| x.as_f64().ok_or(format!("not a number: {x}"));
    let mut boxes = Vec::new();
    for (id, n) in v["nodes"].as_object().ok_or("no nodes")? { boxes.push(boxed(d.by_id(id)?, f(&n["x"])?, f(&n["y"])?, f(&n["width"])?, f(&n["height"])?)?) }
    let mut lines = Vec::new();
    for e in v["edges"].as_array().ok_or("no edges")? {
        let ps = e["points"].as_array().ok_or("no points")?;
        if ps.len() < 2 { return Err("an edge has no line".into()) }
        let (p, q) = (&ps[0], &ps[ps.len() - 1]);
        lines.push(json!([d.by_id(s(&e["from"]))?, d.by_id(s(&e["to"]))?, edge_mark(e["label"].as_str())?, int(f(&p["x"])?)?, int(f(&p["y"])?)?, int(f(&q["x"])?)?, int(f(&q["y"])?)?]));
    }
    d.rec(rule, boxes, lines, json!([]), "json")
}
/// A picture says nothing about names: boxes are told by the text in them, lines by where they run.
struct Look { padding: f64, styled: Option<usize>, styled_edge: Option<usize>, arrows: bool, colour: String }
const NASTY: &str = "a<b & \"c\"";
fn from_svg(d: &Drawn, rule: &str, text: &str, look: &Look, via: &str) -> Result<Value, String> {
    let root = xml::parse(text).map_err(|e| format!("the picture is not well-formed: {e}"))?;
    same("root element", root.name.as_str(), "svg")?;
    let gs: Vec<&xml::El> = root.children.iter().filter(|c| c.name == "g").collect();
    same("drawing groups", gs.len(), 1)?;
    let g = gs[0];
    let tr = g.a("transform")?;
    let ns: Vec<f64> = tr.trim_start_matches("translate(").trim_end_matches(')').split(',').map(xml::num).collect::<Result<_, _>>()?;
    let p = look.padding;
    let frame = boxed(0, p - ns[0], p - ns[1], root.n("width")? - 2.0 * p, root.n("height")? - 2.0 * p)?;
    let mut rects = Vec::new(); g.all("rect", &mut rects);
    let mut paths = Vec::new(); g.all("path", &mut paths);
    let mut texts = Vec::new(); g.all("text", &mut texts);
    for e in rects.iter().chain(&paths) { let c = e.a("class")?; if !c.split(' ').any(|x| x == "node" || x == "edge") { return Err(format!("class {c:?}")) } }
    let mut used = vec![false; texts.len()];
    let mut boxes = Vec::new();
    for r in &rects {
        let (x, y, w, h) = (r.n("x")?, r.n("y")?, r.n("width")?, r.n("height")?);
        // its label: a text of a node in its middle; boxes in the same place are told apart by the order of the texts
        let t = (0..texts.len()).find(|t| !used[*t] && d.by_label(&texts[*t].text).is_ok_and(|k| d.sizes[k - 1] == (w, h)) && texts[*t].n("x").is_ok_and(|v| (v - x - w / 2.0).abs() < 0.1) && texts[*t].n("y").is_ok_and(|v| (v - y - h / 2.0).abs() < 0.1));
        let t = t.ok_or(format!("the box at {x}, {y} has no label"))?;
        used[t] = true;
        let k = d.by_label(&texts[t].text)?;
        boxes.push(boxed(k, x, y, w, h)?);
        styled(r, look.styled == Some(k), &look.colour, "node")?;
    }
    let mut lines = Vec::new();
    for q in &paths {
        let ns: Vec<f64> = q.a("d")?.split(|c: char| c.is_whitespace() || c == 'M' || c == 'L' || c == ',').filter(|x| !x.is_empty()).map(xml::num).collect::<Result<_, _>>()?;
        if ns.len() < 4 { return Err("a line without ends".into()) }
        let (x1, y1, x2, y2) = (ns[0], ns[1], ns[ns.len() - 2], ns[ns.len() - 1]);
        same("arrow head", q.attrs.contains_key("marker-end"), look.arrows)?;
        // the label stands near the middle of the line and after it
        let at = g.children.iter().position(|c| std::ptr::eq(c, *q));
        let next = at.and_then(|k| g.children.get(k + 1)).filter(|c| c.name == "text" && edge_mark(Some(&c.text)).is_ok());
        let mark = match next {
            Some(c) => {
                let t = texts.iter().position(|t| std::ptr::eq(*t, c)).unwrap();
                used[t] = true;
                if (c.n("x")? - (x1 + x2) / 2.0).abs() > 0.1 || (c.n("y")? - (y1 + y2) / 2.0).abs() > 20.0 { return Err("the label of an edge is not at its line".into()) }
                edge_mark(Some(&c.text))?
            }
            None => 0,
        };
        lines.push(json!([-1, -1, mark, int(x1)?, int(y1)?, int(x2)?, int(y2)?]));
    }
    let dressed = paths.iter().filter(|q| styled(q, true, &look.colour, "edge").is_ok()).count();
    let want = look.styled_edge.map_or(0, |k| d.edges.iter().filter(|e| (e.0, e.1) == (d.edges[k].0, d.edges[k].1)).count());
    same("edges in their own style", dressed, want)?;
    for q in &paths { if q.attrs.contains_key("data-note") != styled(q, true, &look.colour, "edge").is_ok() { return Err("a style is applied in part".into()) } }
    if let Some(t) = used.iter().position(|u| !u) { return Err(format!("the text {:?} belongs to nothing", texts[t].text)) }
    d.rec(rule, boxes, lines, frame, via)
}
fn style(colour: &str) -> ElementStyle {
    ElementStyle::new().with_fill(colour.into()).with_stroke(colour.into(), 3.5).with_text("#010203".into(), 9.0).with_opacity(0.25).with_class("special".into()).with_attribute("data-note".into(), NASTY.into())
}
fn styled(e: &xml::El, want: bool, colour: &str, what: &str) -> Result<(), String> {
    let got = [e.attrs.get("data-note").map(|x| x == NASTY), e.attrs.get("opacity").map(|x| x == "0.25"), e.attrs.get("class").map(|c| c.split(' ').any(|x| x == "special")), e.attrs.get("stroke").map(|x| x == colour), e.attrs.get("stroke-width").map(|x| x == "3.5")];
    if got.iter().all(|g| g.unwrap_or(false) == want) { Ok(()) } else { Err(format!("style of a {what}: {:?}", e.attrs)) }
}
/// Exports a layout and reads the picture back.
fn export(d: &Drawn, rule: &str, l: &Layout, salt: usize, recs: &mut Vec<Value>) -> Result<(), String> {
    recs.push(bare(d, rule, l)?);
    let means = [Means::Bare, Means::Json, Means::Svg, Means::Html][salt % 4];
    let fail = |e: oak_visualize::Error| format!("export failed: {e}");
    let cfg = RenderConfig { padding: [20.0, 0.0, 7.0][salt / 4 % 3], show_arrows: salt / 8 % 2 == 0, background_color: if salt % 3 == 0 { "a\"b<".into() } else { "#fff".into() }, font_family: "\"Some Font\", <serif>".into(), ..RenderConfig::default() };
    let mut look = Look { padding: cfg.padding, styled: None, styled_edge: None, arrows: cfg.show_arrows, colour: "url(\"#x\")".into() };
    match means {
        Means::Bare => {}
        Means::Json => recs.push(from_json(d, rule, &LayoutExporter::new(ExportFormat::Json).with_config(cfg).export(l).map_err(fail)?)?),
        Means::Html => {
            let h = LayoutExporter::new(ExportFormat::Html).with_config(cfg).export(l).map_err(fail)?;
            let (a, b) = (h.find("<svg").ok_or("no picture")?, h.rfind("</svg>").ok_or("no picture")?);
            recs.push(from_svg(d, rule, &h[a..b + 6], &look, "html")?);
        }
        Means::Svg => {
            if salt / 16 % 2 == 0 { recs.push(from_svg(d, rule, &LayoutExporter::new(ExportFormat::Svg).with_config(cfg.clone()).export(l).map_err(fail)?, &look, "svg")?) }
            else {
                let mut r = SvgRenderer::new().with_config(cfg);
                if !d.ids.is_empty() {
                    look.styled = Some(salt / 32 % d.ids.len() + 1);
                    r.set_node_style(d.ids[look.styled.unwrap() - 1].clone(), style(&look.colour));
                }
                if !d.edges.is_empty() {
                    look.styled_edge = Some(salt / 32 % d.edges.len());
                    let e = d.edges[look.styled_edge.unwrap()];
                    r.set_edge_style(format!("{}_{}", d.ids[e.0 - 1], d.ids[e.1 - 1]), style(&look.colour));
                }
                recs.push(from_svg(d, rule, &r.render_layout(l).map_err(fail)?, &look, "svg with styles")?);
            }
        }
    }
    Ok(())
}

const TYPES: [(&str, NodeType); 4] = [("function", NodeType::Function), ("struct", NodeType::Struct), ("module", NodeType::Module), ("other", NodeType::Default)];
fn node_id(k: usize) -> String { match k % 3 { 0 => format!("n{k}"), 1 => format!("n{k}\"<&>"), _ => format!("{k} \u{e9}'") } }
fn node_label(k: usize) -> String { match k % 4 { 0 => format!("N{k}"), 1 => format!("{k} <a href=\"x\">&amp;"), 2 => format!("a<{k}&&b>'c'"), _ => format!("\u{4e16}\u{754c} {k} ]]>") } }

fn graphs(v: &Value, salt: usize, recs: &mut Vec<Value>) -> Result<(), String> {
    let n = u(&v["n"]);
    let directed = v["directed"].as_bool().unwrap();
    let ids: Vec<String> = (1..=n).map(node_id).collect();
    let es: Vec<(usize, usize, usize)> = arr(&v["edges"]).iter().enumerate().map(|(k, e)| (u(&e[0]), u(&e[1]), (k + salt) % 3)).collect();
    let name = |k: usize, at: usize, end: &str| if k == 0 { format!("ghost{at}{end}") } else { ids[k - 1].clone() };
    let gsizes = [None, Some((30.0, 20.0)), Some((80.0, 40.0)), Some((60.0, 10.0))];
    let mut g = Graph::new(directed);
    for k in 1..=n {
        let mut node = GraphNode::new(ids[k - 1].clone(), node_label(k)).with_type(TYPES[(k + salt) % 4].0.into());
        if let Some((w, h)) = gsizes[(k + salt / 2) % 4] { node = node.with_size(Size::new(w, h)) }
        g.add_node(node);
    }
    for (at, e) in es.iter().enumerate() {
        let mut ge = GraphEdge::new(name(e.0, at, "from"), name(e.1, at, "to"));
        if let Some(l) = edge_label(e.2) { ge = ge.with_label(l) }
        g.add_edge(ge);
    }
    // queries
    for k in 1..=n {
        let mut want: Vec<i64> = arr(&v["near"][k - 1]).iter().map(i).collect();
        let mut got: Vec<i64> = g.get_neighbors(&ids[k - 1]).iter().map(|x| ids.iter().position(|y| y == x).map_or(0, |p| p as i64 + 1)).collect();
        want.sort(); got.sort();
        same("degree", g.get_degree(&ids[k - 1]), want.len())?;
        same("neighbours", got, want)?;
    }
    same("connected", g.is_connected(), v["connected"].as_bool().unwrap())?;
    let cycles = g.find_cycles();
    same("cycles found", !cycles.is_empty(), v["cyclic"].as_bool().unwrap())?;
    let found: Vec<Vec<i64>> = cycles.iter().map(|c| c.iter().map(|x| ids.iter().position(|y| y == x).map_or(-1, |p| p as i64 + 1)).collect()).collect();
    if !found.is_empty() { recs.push(json!({"rule": "cycles", "edges": v["edges"], "directed": directed, "found": found})) }
    // drawings
    let known: Vec<_> = es.iter().copied().filter(|e| e.0 > 0 && e.1 > 0).collect();
    let cfg = if salt % 2 == 0 { GraphLayoutConfig::default() } else { GraphLayoutConfig { node_width: 120.0, node_height: 60.0, node_spacing: 10.0, layer_distance: 70.0, circle_radius: 300.0, iterations: 7, ..GraphLayoutConfig::default() } };
    let mut d = Drawn {
        labels: (1..=n).map(node_label).collect(), types: (1..=n).map(|k| TYPES[(k + salt) % 4].1).collect(),
        sizes: (1..=n).map(|k| gsizes[(k + salt / 2) % 4].unwrap_or((cfg.node_width, cfg.node_height))).collect(),
        up: vec![], depth: vec![], edges: known, acyclic: v["acyclic"].as_bool().unwrap(), ids: ids.clone(),
    };
    use GraphLayoutAlgorithm::*;
    for (k, (alg, rule)) in [(ForceDirected, "free"), (Circular, "free"), (Hierarchical, "down"), (Grid, "grid"), (Organic, "free")].into_iter().enumerate() {
        if k != 2 && (k + salt) % 3 != 0 { continue }
        let l = GraphLayout::new().with_algorithm(alg).with_config(cfg.clone()).layout_graph(&g).map_err(|e| e.to_string())?;
        export(&d, rule, &l, salt / 5 + k, recs).map_err(|e| format!("{alg:?}: {e}"))?;
    }
    let esizes = [(100.0, 50.0), (30.0, 80.0), (260.0, 10.0), (1.0, 2.0)];
    d.sizes = (1..=n).map(|k| esizes[(k + salt) % 4]).collect();
    let all = [NodeType::Default, NodeType::Function, NodeType::Struct, NodeType::Enum, NodeType::Variable, NodeType::Constant, NodeType::Module];
    d.types = (1..=n).map(|k| all[(k + salt) % 7]).collect();
    let lc = if salt % 2 == 0 { LayoutConfig::default() } else { LayoutConfig { horizontal_spacing: 5.0, vertical_spacing: 4.0, margin: 3.0, ..LayoutConfig::default() } };
    let ln: Vec<LayoutNode> = (1..=n).map(|k| LayoutNode::new(ids[k - 1].clone(), d.labels[k - 1].clone()).with_size(Size::new(d.sizes[k - 1].0, d.sizes[k - 1].1)).with_type(d.types[k - 1])).collect();
    let le: Vec<LayoutEdge> = es.iter().enumerate().map(|(at, e)| { let x = LayoutEdge::new(name(e.0, at, "from"), name(e.1, at, "to")); match edge_label(e.2) { Some(l) => x.with_label(l), None => x } }).collect();
    use LayoutDirection::*;
    for (k, (dir, rule)) in [(TopDown, "down"), (BottomUp, "up"), (LeftRight, "right"), (RightLeft, "left")].into_iter().enumerate() {
        if (k + salt) % 2 != 0 { continue }
        let l = HierarchicalLayout::new(dir).layout(&ln, &le, &lc).map_err(|e| e.to_string())?;
        export(&d, rule, &l, salt / 5 + k, recs).map_err(|e| format!("hierarchical layout, {dir:?}: {e}"))?;
    }
    if salt % 3 == 0 {
        let l = ForceDirectedLayout::new().with_iterations(5).layout(&ln, &le, &lc).map_err(|e| e.to_string())?;
        export(&d, "free", &l, salt / 3, recs).map_err(|e| format!("force-directed layout: {e}"))?;
    }
    // the picture drawn at once
    if salt % 7 == 0 {
        let x = xml::parse(&g.visualize().map_err(|e| e.to_string())?).map_err(|e| format!("picture of a graph: {e}"))?;
        let mut ts = Vec::new(); x.all("text", &mut ts);
        let mut got: Vec<String> = ts.iter().map(|t| t.text.clone()).filter(|t| edge_mark(Some(t)).is_err()).collect();
        let mut want = d.labels.clone();
        got.sort(); want.sort();
        same("labels in the picture of a graph", got, want)?;
    }
    Ok(())
}

fn trees(v: &Value, salt: usize, recs: &mut Vec<Value>) -> Result<(), String> {
    let t = arr(&v["tree"]);
    let n = t.len();
    let ups: Vec<usize> = arr(&v["up"]).iter().map(u).collect();
    let cfg = if salt % 2 == 0 { TreeLayoutConfig::default() } else { TreeLayoutConfig { node_width: 50.0, node_height: 30.0, level_distance: 90.0, sibling_distance: 5.0, subtree_distance: 9.0 } };
    let size = |k: usize| match s(&t[k - 1]["s"]) { "no" => None, "small" => Some((30.0, 20.0)), "wide" => Some((260.0, 40.0)), _ => Some((60.0, 75.0)) };
    fn grow(k: usize, ups: &[usize], salt: usize, size: &dyn Fn(usize) -> Option<(f64, f64)>) -> TreeNode {
        let mut x = TreeNode::new(node_id(k), node_label(k), TYPES[(k + salt) % 4].0.into());
        if let Some((w, h)) = size(k) { x = x.with_size(Size::new(w, h)) }
        for c in (1..=ups.len()).filter(|c| ups[c - 1] == k) { x = x.with_child(grow(c, ups, salt, size)) }
        x
    }
    let tree = grow(1, &ups, salt, &size);
    let leaves = u(&v["leaves"]);
    let height = u(&v["height"]);
    same("number of nodes", tree.node_count(), n)?;
    same("number of leaves", tree.leaf_count(), leaves)?;
    same("depth", tree.depth(), height)?;
    let d = Drawn {
        ids: (1..=n).map(node_id).collect(), labels: (1..=n).map(node_label).collect(), types: (1..=n).map(|k| TYPES[(k + salt) % 4].1).collect(),
        sizes: (1..=n).map(|k| size(k).unwrap_or((cfg.node_width, cfg.node_height))).collect(), up: arr(&v["up"]).clone(), depth: t.iter().map(|x| x["d"].clone()).collect(),
        edges: (2..=n).map(|k| (ups[k - 1], k, 0)).collect(), acyclic: true,
    };
    use TreeLayoutAlgorithm::*;
    for (k, (alg, rule)) in [(Layered, "layered"), (Compact, "compact"), (Radial, "free"), (Balloon, "free")].into_iter().enumerate() {
        if k > 1 && (k + salt) % 2 != 0 { continue }
        let l = TreeLayout::new().with_algorithm(alg).with_config(cfg.clone()).layout_tree(&tree).map_err(|e| e.to_string())?;
        export(&d, rule, &l, salt / 2 + k, recs).map_err(|e| format!("{alg:?}: {e}"))?;
    }
    // the same shape as a syntax tree: leaves are tokens, other nodes are nodes
    let arena = SyntaxArena::new(0);
    fn green<'a>(k: usize, ups: &[usize], a: &'a SyntaxArena, node: bool) -> GreenTree<'a, Mini> {
        let ch: Vec<GreenTree<'a, Mini>> = (1..=ups.len()).filter(|c| ups[c - 1] == k).map(|c| green(c, ups, a, false)).collect();
        if ch.is_empty() && !node { return GreenTree::Leaf(GreenLeaf::new(T(100 + k as u32), k as u32)) }
        GreenTree::Node(a.alloc(GreenNode::new(K(k as u32), a.alloc_slice_copy(&ch))))
    }
    fn alike(x: &TreeNode, k: usize, ups: &[usize], seen: &mut HashSet<String>) -> Result<(), String> {
        let ch: Vec<usize> = (1..=ups.len()).filter(|c| ups[c - 1] == k).collect();
        let leaf = ch.is_empty() && k != 1;
        let want = if leaf { (format!("{:?}", T(100 + k as u32)), "leaf") } else { (format!("{:?}", K(k as u32)), "node") };
        same("node of a syntax tree", (x.label.clone(), x.node_type.as_str()), want)?;
        if !seen.insert(x.id.clone()) { return Err(format!("two nodes are called {:?}", x.id)) }
        same("children of a syntax tree", x.children.len(), ch.len())?;
        for (c, k) in x.children.iter().zip(ch) { alike(c, k, ups, seen)? }
        Ok(())
    }
    let g = green(1, &ups, &arena, true);
    alike(&TreeNode::from(&g), 1, &ups, &mut HashSet::new())?;
    let GreenTree::Node(root) = g else { unreachable!() };
    let red = RedTree::Node(RedNode::new(root, 0));
    alike(&TreeNode::from(&red), 1, &ups, &mut HashSet::new())?;
    if salt % 5 == 0 {
        for text in [to_svg(&g), to_svg(&red), red.visualize()] {
            let x = xml::parse(&text.map_err(|e| e.to_string())?).map_err(|e| format!("picture of a syntax tree: {e}"))?;
            let mut got: HashMap<String, usize> = HashMap::new();
            let mut ts = Vec::new(); x.all("text", &mut ts);
            for t in ts { *got.entry(t.text.clone()).or_default() += 1 }
            let want: HashMap<String, usize> = (1..=n).map(|k| (if k != 1 && !ups.contains(&k) { format!("{:?}", T(100 + k as u32)) } else { format!("{:?}", K(k as u32)) }, 1)).collect();
            same("labels in the picture of a syntax tree", got, want)?;
            let mut ps = Vec::new(); x.all("path", &mut ps);
            same("lines in the picture of a syntax tree", ps.len(), n - 1)?;
        }
    }
    Ok(())
}
