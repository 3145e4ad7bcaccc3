property = "C05"
needs = "clear on a map that shares a subtree with a clone, after which the clone is dropped"
breaks = "AvlMap::clear, freeing the tree without recursion, forgets the subtrees another map shares, so their elements are never dropped"
edits = [("src/avl.rs", """    /// Drops all elements from the map.
    pub fn clear(&mut self) {
        self.len = 0;
        self.root = None;
    }
""", """    /// Drops all elements from the map.
    pub fn clear(&mut self) {
        self.len = 0;

        // free the nodes that are ours alone without recursion
        let mut todo: Vec<_> = self.root.take().into_iter().collect();
        while let Some(rc) = todo.pop() {
            match Arc::try_unwrap(rc) {
                Ok(n) => todo.extend(n.left.into_iter().chain(n.right)),
                Err(rc) => std::mem::forget(rc), // in use elsewhere
            }
        }
    }
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
use std::rc::Rc;
fn main() {
    let t = Rc::new(());
    let mut a = AvlMap::new();
    for i in 0..40 { a.insert(i, t.clone()); }
    let b = a.clone();
    a.insert(3, t.clone());
    a.clear();
    assert_eq!(Rc::strong_count(&t), 41);
    drop(b);
    assert_eq!(Rc::strong_count(&t), 1);
}
'''
