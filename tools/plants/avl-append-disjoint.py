property = "C08"
needs = "append of a map whose greatest key equals the least key of the receiver"
breaks = "AvlMap::append's fast path for maps that do not overlap also takes maps that touch in one key, which is then stored twice"
edits = [("src/avl.rs", """        self.root = union(self.root.take(), other.root.take());
        self.len = len(&self.root);
        other.len = 0;
""", """        let is_before = match (other.last_key_value(), self.first_key_value())
        {
            (Some((a, _)), Some((b, _))) => a.cmp(b) != Greater,
            _ => true,
        };
        if is_before {
            // the maps do not overlap: no need to merge node by node
            self.root = join2(other.root.take(), None, self.root.take());
            self.len += other.len;
        } else {
            self.root = union(self.root.take(), other.root.take());
            self.len = len(&self.root);
        }
        other.len = 0;
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
fn main() {
    let mut a: AvlMap<u32, u32> = (100..200).map(|i| (i, 0)).collect();
    let mut b: AvlMap<u32, u32> = (0..=100).map(|i| (i, 1)).collect();
    a.append(&mut b);
    assert_eq!(a.len(), 200);
    assert_eq!(a.get(&100), Some(&1));
    assert!(b.is_empty());
}
'''
