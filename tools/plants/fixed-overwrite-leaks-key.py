property = "C05"
needs = "overwriting an existing key in a fixed-node map whose keys own something"
breaks = "Node::insert writes the new key over the old one in place, and the old key is never dropped"
edits = [("src/btree/core.rs", """                let old_k = replace(self.key_mut(ub_x), kv.0);
                let old_v = replace(self.val_mut(ub_x), kv.1);
                Replaced(old_k, old_v)
""", """                self.elems.keys[ub_x].write(kv.0);
                let old_v = replace(self.val_mut(ub_x), kv.1);
                Replaced(old_v)
"""), ("src/btree/core.rs", "    Replaced(K, V),\n", "    Replaced(V),\n"),
("src/btree/fixed.rs", "Replaced(_, val) => Some(val),", "Replaced(val) => Some(val),")]
demo = r'''
use lazy_clone_collections::btree::fixed::BTreeMap;
use std::rc::Rc;
fn main() {
    let k = Rc::new(7);
    let mut m = BTreeMap::new();
    m.insert(k.clone(), 0);
    m.insert(Rc::new(7), 1);
    assert_eq!(Rc::strong_count(&k), 1);
    assert_eq!(m.get(&k), Some(&1));
}
'''
