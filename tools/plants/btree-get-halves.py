property = "C01"
needs = "a map with big nodes (N of at least 8) and a lookup of a key in the middle of a node that holds more than sixteen"
breaks = "looking up a key in a big node starts behind its middle when the key is not less than the middle one, so the middle one itself is not found"
edits = [("src/btree.rs", """        for i in 0..self.len() {
            match key.cmp(self.key(i).borrow()) {
                Less => return self.child(i)?.get_key_value(key),
                Equal => return Some(&self.elems[i]),
""", """        // big nodes: skip the first half if the key is not in it
        let mid = self.len() / 2;
        let skip = mid >= 8 && key >= self.key(mid).borrow();

        for i in (if skip { mid + 1 } else { 0 })..self.len() {
            match key.cmp(self.key(i).borrow()) {
                Less => return self.child(i)?.get_key_value(key),
                Equal => return Some(&self.elems[i]),
""")]
demo = r'''
use lazy_clone_collections::btree::BTreeMap;
fn main() {
    let m: BTreeMap<u32, u32, 16> = (0..500).map(|i| (i, i)).collect();
    for i in 0..500 { assert_eq!(m.get(&i), Some(&i)); }
}
'''
