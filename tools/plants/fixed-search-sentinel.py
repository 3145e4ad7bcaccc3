property = "C15"
needs = "a fixed-node map with keys no wider than a word, and a lookup past the last key of a node that is not full"
breaks = "InlineVec::search_keys looks at the slot past the last key before it tests the index, so it reads an uninitialized (or moved-out) key"
edits = [("src/btree/core.rs", """            for (i, k) in self.keys().iter().enumerate() {
                match key.cmp(k.borrow()) {
                    Less => return Err(i),
                    Equal => return Ok(i),
                    Greater => (),
                }
            }

            Err(self.len as usize)
""", """            let len = self.len as usize;
            for (i, slot) in self.keys.iter().enumerate() {
                let k = unsafe { slot.assume_init_ref() };
                match key.cmp(k.borrow()) {
                    _ if i >= len => break,
                    Less => return Err(i),
                    Equal => return Ok(i),
                    Greater => (),
                }
            }

            Err(len)
""")]
run = "miri"
demo = r'''
use lazy_clone_collections::btree::fixed::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    for i in 0..30u32 { m.insert(i * 2, i); }
    for i in 0..70u32 {
        assert_eq!(m.get(&i).copied(), if i % 2 == 0 && i < 60 { Some(i / 2) } else { None });
    }
}
'''
