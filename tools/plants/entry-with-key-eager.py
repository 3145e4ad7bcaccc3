property = "C01"
needs = "or_insert_with_key on an entry whose key is present, with a closure whose calls can be seen"
breaks = "Entry::or_insert_with_key calls its closure even if the key is present"
edits = [("src/lib.rs", """        if !self.map.contains_key_(&self.key) {
            let v = default(&self.key);
            self.map.insert_(self.key.clone(), v);
        }
""", """        let v = default(&self.key);
        if !self.map.contains_key_(&self.key) {
            self.map.insert_(self.key.clone(), v);
        }
""")]
demo = r'''
use lazy_clone_collections::{AvlMap, BTreeMap};
fn main() {
    let mut calls = 0;
    let mut m: AvlMap<u32, u32> = [(1, 1)].into_iter().collect();
    m.entry(1).or_insert_with_key(|k| { calls += 1; *k });
    let mut m: BTreeMap<u32, u32> = [(1, 1)].into_iter().collect();
    m.entry(1).or_insert_with_key(|k| { calls += 1; *k });
    assert_eq!(calls, 0);
}
'''
