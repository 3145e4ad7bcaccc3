property = "C04"
needs = "a mutable iterator over a shared tree that is dropped after a few elements"
breaks = "iter_mut and range_mut copy every child of a node as soon as they enter it, instead of the children that they reach"
edits = [("src/btree.rs", """    let n = Arc::make_mut(n);
    NodeIterMut::new(n.elems.iter_mut(), n.kids.iter_mut())
""", """    let n = Arc::make_mut(n);
    for kid in n.kids.iter_mut() {
        // get the kids ready while the node is in the cache
        Arc::make_mut(kid);
    }
    NodeIterMut::new(n.elems.iter_mut(), n.kids.iter_mut())
""")]
demo = r'''
use lazy_clone_collections::btree::BTreeMap;
use std::cell::Cell;
thread_local!(static COPIES: Cell<usize> = Cell::new(0));
struct V;
impl Clone for V { fn clone(&self) -> V { COPIES.with(|c| c.set(c.get() + 1)); V } }
fn main() {
    let mut m: BTreeMap<u32, V, 16> = (0..20_000).map(|i| (i, V)).collect();
    let keep = m.clone();
    COPIES.with(|c| c.set(0));
    let h = m.iter_mut().next().is_some();
    assert!(h);
    // the way to the first element: at most height * node size
    let n = COPIES.with(|c| c.get());
    assert!(n <= 200, "{n}");
    drop(keep);
}
'''
