property = "C15"
needs = "a removal from a fixed node that holds exactly its maximum of elements"
breaks = "InlineVec::remove shifts one element too many; with a full node it reads past the end of the array"
edits = [("src/btree/core.rs", """            copy(
                vals.add(idx + 1),
                vals.add(idx),
                (self.len as usize) - idx - 1,
            );
""", """            copy(
                vals.add(idx + 1),
                vals.add(idx),
                (self.len as usize) - idx,
            );
""")]
demo = r'''
use lazy_clone_collections::btree::fixed::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..11u8 { m.insert(i, Box::new(i)); }
    assert_eq!(m.remove(&3).as_deref(), Some(&3));
    assert_eq!(m.len(), 10);
}
'''
run = "miri"
