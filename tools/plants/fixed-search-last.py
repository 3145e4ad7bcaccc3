property = "C01"
needs = "a fixed-node map with keys wider than a machine word, and an update or lookup of a key that is the greatest of its node"
breaks = "InlineVec::search_keys' shortcut for keys past the end of the node also takes the greatest key itself, which is then not found and inserted twice"
edits = [("src/btree/core.rs", """            self.keys().binary_search_by_key(&key, |k| k.borrow())
""", """            // ascending inserts are common: try the end of the node first
            match self.keys().last() {
                Some(k) if key >= k.borrow() => Err(self.len as usize),
                _ => self.keys().binary_search_by_key(&key, |k| k.borrow()),
            }
""")]
demo = r'''
use lazy_clone_collections::btree::fixed::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..40 { m.insert(format!("{i:03}"), i); }
    assert_eq!(m.len(), 40);
    for i in 0..40 { assert_eq!(m.get(&format!("{i:03}")), Some(&i)); }
}
'''
