property = "C08"
needs = "split_off at a key that is exactly the greatest key of the map"
breaks = "BTreeMap::split_off has a fast path for keys beyond the end that also swallows the greatest key, so that entry stays in the left part"
edits = [("src/btree.rs", """        // TODO: this can probably be more efficient
        let (a, b) = std::mem::take(self)""", """        // nothing to move
        match self.last_key_value() {
            Some((last, _)) if self.len() > 64 && last.borrow() <= key => {
                return Self::new()
            }
            _ => {}
        }

        // TODO: this can probably be more efficient
        let (a, b) = std::mem::take(self)""")]
demo = r'''
use lazy_clone_collections::BTreeMap;
fn main() {
    let mut m: BTreeMap<u32, u32> = (0..100).map(|i| (i * 2, i)).collect();
    let mut s: std::collections::BTreeMap<u32, u32> = m.iter().map(|(k, v)| (*k, *v)).collect();
    let (b, sb) = (m.split_off(&198), s.split_off(&198));
    assert!(b.iter().eq(sb.iter()));
    assert!(m.iter().eq(s.iter()));
}
'''
