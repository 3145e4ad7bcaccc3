property = "C04"
needs = "a removal from an unshared B-tree map that merges two nodes, with element clones counted"
breaks = "Node::merge_kids always clones the left node instead of taking it over when it is not shared"
edits = [("src/btree.rs", """        let mut lhs_n = match Arc::try_unwrap(lhs_rc) {
            Ok(n) => n,
            Err(rc) => (*rc).clone(),
        };
""", """        let mut lhs_n = Node::clone(&lhs_rc);
        drop(lhs_rc);
""")]
demo = r'''
use lazy_clone_collections::BTreeMap;
use std::cell::Cell;
thread_local!(static N: Cell<usize> = Cell::new(0));
struct V;
impl Clone for V { fn clone(&self) -> V { N.with(|n| n.set(n.get() + 1)); V } }
fn main() {
    let mut m: BTreeMap<u32, V> = (0..200).map(|i| (i, V)).collect();
    for i in 0..200 { m.remove(&i); }
    assert_eq!(N.with(|n| n.get()), 0);
}
'''
