property = "C12"
needs = "comparing two equal very long stacks that do not share their nodes"
breaks = "Stack equality is delegated to the derived equality of the list nodes, which recurses once per element"
edits = [("src/stack.rs", """#[derive(Clone)]
struct List<T> {""", """#[derive(Clone, PartialEq)]
struct List<T> {"""), ("src/stack.rs", "        self.len == rhs.len && self.iter().zip(rhs.iter()).all(|(a, b)| a == b)\n",
"        self.len == rhs.len && self.elems == rhs.elems\n")]
demo = r'''
use lazy_clone_collections::Stack;
fn main() {
    let a: Stack<u32> = (0..3_000_000).collect();
    let b: Stack<u32> = (0..3_000_000).collect();
    assert!(a == b);
}
'''
