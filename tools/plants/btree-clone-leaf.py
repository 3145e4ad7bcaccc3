property = "C04"
needs = "cloning a B-tree map that fits into one node"
breaks = "cloning a map that is a single leaf copies its elements at once"
edits = [("src/btree.rs", """#[derive(Clone)]
pub struct BTreeMap<K, V, const N: usize = 5> {
    len: usize,
    root: Option<NodePtr<K, V, N>>,
}
""", """pub struct BTreeMap<K, V, const N: usize = 5> {
    len: usize,
    root: Option<NodePtr<K, V, N>>,
}

impl<K: Clone, V: Clone, const N: usize> Clone for BTreeMap<K, V, N> {
    fn clone(&self) -> Self {
        // sharing does not pay for the smallest maps
        let root = match &self.root {
            Some(rc) if rc.is_leaf() && rc.len() <= N / 2 => {
                Some(Arc::new(Node::clone(rc)))
            }
            r => r.clone(),
        };

        BTreeMap { len: self.len, root }
    }
}
""")]
demo = r'''
use lazy_clone_collections::BTreeMap;
use std::cell::Cell;
thread_local!(static COPIES: Cell<u32> = Cell::new(0));
struct V;
impl Clone for V { fn clone(&self) -> V { COPIES.with(|c| c.set(c.get() + 1)); V } }
fn main() {
    for n in 0..20 {
        let m: BTreeMap<u32, V> = (0..n).map(|i| (i, V)).collect();
        COPIES.with(|c| c.set(0));
        let _m2 = m.clone();
        assert_eq!(COPIES.with(|c| c.get()), 0, "{n}");
    }
}
'''
