property = "C02"
needs = "a shared ancestor over a node that is not itself counted as shared: clone a map, then get_mut on a key below the root"
breaks = "AvlMap::get_mut finds the node read-only and writes in place when the node's own reference count is one, although an ancestor is shared with a clone"
edits = [("src/avl.rs", """        let mut curr = &mut self.root;
        while let Some(rc) = curr {
            let n = Arc::make_mut(rc);
            match k.cmp(n.key.borrow()) {
                Less => curr = &mut n.left,
                Equal => return Some(&mut n.val),
                Greater => curr = &mut n.right,
            }
        }

        None
""", """        // look for the node first: do not copy a path if there is no need to
        let mut curr = self.root.as_ref();
        while let Some(rc) = curr {
            match k.cmp(rc.key.borrow()) {
                Less => curr = rc.left.as_ref(),
                Equal => break,
                Greater => curr = rc.right.as_ref(),
            }
        }
        let found = curr?;
        if Arc::strong_count(found) == 1 {
            let p = Arc::as_ptr(found) as *mut Node<K, V>;
            return Some(unsafe { &mut (*p).val });
        }

        let mut curr = &mut self.root;
        while let Some(rc) = curr {
            let n = Arc::make_mut(rc);
            match k.cmp(n.key.borrow()) {
                Less => curr = &mut n.left,
                Equal => return Some(&mut n.val),
                Greater => curr = &mut n.right,
            }
        }

        None
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
fn main() {
    let a: AvlMap<u32, u32> = (0..7).map(|i| (i, i)).collect();
    let mut b = a.clone();
    *b.get_mut(&0).unwrap() = 100;
    assert_eq!(b.get(&0), Some(&100));
    assert_eq!(a.get(&0), Some(&0));
}
'''
