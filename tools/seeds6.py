from seedlib import seed
P = "projects/"; V = P + "oak-visualize"
seed("c29-bounds-zero", "C29", [(V + "/src/layout/mod.rs", "        let mut max_x = f64::NEG_INFINITY;\n", "        let mut max_x = 0.0f64;\n")], r'''
use oak_visualize::geometry::Rect;
use oak_visualize::layout::Layout;
fn main() {
    // everything stands left of the origin
    let mut l = Layout::new();
    l.add_node("a".into(), Rect::from_xywh(-90.0, 0.0, 30.0, 20.0));
    l.add_node("b".into(), Rect::from_xywh(-50.0, 10.0, 30.0, 20.0));
    assert_eq!(l.bounds, Rect::from_xywh(-90.0, 0.0, 70.0, 30.0));
}
''', [V], "a layout all of whose nodes stand left of the origin", "the bounds of a layout reach to the origin although nothing stands there")
seed("c29-compact-subtree", "C29", [(V + "/src/tree/mod.rs", "            child_x += positioned_child.subtree_width + self.config.sibling_distance;\n", "            child_x += positioned_child.size.width + self.config.sibling_distance;\n")], r'''
use oak_visualize::tree::*;
fn n(id: &str) -> TreeNode { TreeNode::new(id.into(), id.into(), "x".into()) }
fn main() {
    let t = n("root").with_children(vec![n("a").with_children(vec![n("a1"), n("a2"), n("a3")]), n("b").with_children(vec![n("b1")])]);
    let l = TreeLayout::new().with_algorithm(TreeLayoutAlgorithm::Compact).layout_tree(&t).unwrap();
    let ns: Vec<_> = l.nodes.values().collect();
    for (k, a) in ns.iter().enumerate() { for b in &ns[k + 1..] { assert!(!a.rect.intersects(&b.rect), "{} and {} overlap", a.id, b.id) } }
}
''', [V], "a child with several children of its own followed by a sibling", "the compact layout draws the subtrees of siblings over each other")
seed("c29-self-loop", "C29", [(V + "/src/graph/mod.rs", "            else if rec_stack.contains(neighbor) {\n", "            else if neighbor != node && rec_stack.contains(neighbor) {\n")], r'''
use oak_visualize::graph::*;
fn main() {
    let mut g = Graph::new(true);
    for x in ["a", "b"] { g.add_node(GraphNode::new(x.into(), x.into())) }
    g.add_edge(GraphEdge::new("a".into(), "b".into()));
    g.add_edge(GraphEdge::new("b".into(), "b".into()));
    assert_eq!(g.find_cycles(), vec![vec!["b".to_string()]]);
}
''', [V], "a node with an edge to itself", "find_cycles does not find cycles of one node")
seed("c29-left-right-width", "C29", [(V + "/src/layout/mod.rs", "    *x += node.size.width + config.horizontal_spacing;\n", "    *x += config.node_width + config.horizontal_spacing;\n")], r'''
use oak_visualize::geometry::Size;
use oak_visualize::layout::*;
fn main() {
    let n = |id: &str, w: f64| LayoutNode::new(id.into(), id.into()).with_size(Size::new(w, 40.0));
    let l = HierarchicalLayout::new(LayoutDirection::LeftRight).layout(&[n("a", 300.0), n("b", 20.0)], &[LayoutEdge::new("a".into(), "b".into())], &LayoutConfig::default()).unwrap();
    assert!(l.nodes["a"].rect.max_x() <= l.nodes["b"].rect.min_x(), "{:?} {:?}", l.nodes["a"].rect, l.nodes["b"].rect);
}
''', [V], "a node wider than the configured width with children, drawn from left to right", "children stand beside the start of their parent and over it")
