property = "C08"
needs = "append of a map that shares its whole tree with the receiver (an unmodified clone of it)"
breaks = "AvlMap::append returns early when both maps have the same root and so leaves the other map full instead of empty"
edits = [("src/avl.rs", """        self.root = union(self.root.take(), other.root.take());
        self.len = len(&self.root);
        other.len = 0;
""", """        if let (Some(a), Some(b)) = (&self.root, &other.root) {
            if Arc::ptr_eq(a, b) {
                return; // an unmodified clone: nothing to add
            }
        }
        self.root = union(self.root.take(), other.root.take());
        self.len = len(&self.root);
        other.len = 0;
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
fn main() {
    let mut a: AvlMap<u32, u32> = (0..50).map(|i| (i, 0)).collect();
    let mut b = a.clone();
    a.append(&mut b);
    assert_eq!(a.len(), 50);
    assert!(b.is_empty() && b.iter().next().is_none());
}
'''
