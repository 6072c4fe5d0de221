from seedlib import seed
P = "projects/"; M = P + "oak-macros"; PP = P + "oak-pretty-print"; J = "examples/oak-json"
seed("c30-join-nil", "C30", [(PP + "/src/document/mod.rs", "            if i > 0 {\n", "            if i > 0 && !matches!(doc, Document::Nil) {\n")], r'''
use oak_pretty_print::*;
fn main() {
    // three arguments, the one in the middle is left out
    let args = vec![doc!("a"), doc!(nil), doc!("c")];
    assert_eq!(doc!(join(args, ", ")).render(FormatConfig::new()), "a, , c\n");
}
''', [PP], "an empty item that is not the first one of a join", "the separator before an empty item is left out")
seed("c30-null-word", "C30", [(M + "/src/json.rs", "            if ident == \"null\" {\n", "            if ident.to_string().starts_with(\"null\") {\n")], r'''
use oak_macros::json;
fn main() {
    let nullable = 1.5;
    assert_eq!(json!([nullable, null]).to_string(), "[1.5,null]");
}
''', [M, J], "an expression that begins with a name beginning with null", "the variable is taken for null")
seed("c30-two-handlers", "C30", [(M + "/src/define_rules.rs", "        let apply_node = if let Some(node) = &rule.node {\n", "        let apply_node = if let (Some(node), None) = (&rule.node, &rule.token) {\n")], r'''
#![feature(new_range_api)]
use oak_core::{language::*, memory::arena::SyntaxArena, tree::*};
use oak_pretty_print::*;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct T(u8);
impl TokenType for T { type Role = UniversalTokenRole; const END_OF_STREAM: Self = T(0); fn role(&self) -> UniversalTokenRole { UniversalTokenRole::Name } }
impl From<T> for K { fn from(t: T) -> K { K(t.0) } }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct K(u8);
impl ElementType for K { type Role = UniversalElementRole; fn role(&self) -> UniversalElementRole { UniversalElementRole::Expression } }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct Mini;
impl Language for Mini { const NAME: &'static str = "mini"; type TokenType = T; type ElementType = K; type TypedRoot = (); }
fn rules<L: Language + 'static>() -> Vec<Box<dyn FormatRule<L>>> {
    define_rules! {
        marks { priority: 3,
            node(n, _c, _s, inner) if true => Ok(Some(doc!("<", inner(n)?, ">"))),
            token(t, _c, s) if true => Ok(Some(doc!("'", &s[t.span.start..t.span.end]))),
        }
    }
}
fn main() {
    let a = SyntaxArena::new(4096);
    let ch = [GreenTree::<Mini>::Leaf(GreenLeaf::new(T(1), 1))];
    let root = a.alloc(GreenNode::new(K(1), a.alloc_slice_copy(&ch)));
    let mut f = Formatter::<Mini>::new(FormatConfig::new());
    for r in rules() { f.add_rule(r).unwrap() }
    assert_eq!(f.format(&RedNode::new(root, 0), "x").unwrap().content, "<'x>\n");
}
''', [PP, P + "oak-core"], "a rule with a part for nodes and a part for tokens", "the part for nodes is ignored")
