property = "C17"
needs = "hashing equal maps that were built in different orders and so differ in height"
breaks = "the hash of a map includes the height of its tree"
edits = [("src/avl.rs", """        self.len.hash(state); // increase entropy?
""", """        (self.len, height(&self.root)).hash(state); // increase entropy?
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
use std::hash::{Hash, Hasher};
fn h(m: &AvlMap<u32, u32>) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); m.hash(&mut s); s.finish() }
// a sparse AVL tree of the given height: keys lo.. in the order of its levels
fn sparse(ht: u32, lo: u32, level: usize, out: &mut Vec<(usize, u32)>) -> u32 {
    if ht == 0 { return lo; }
    let mid = sparse(ht - 1, lo, level + 1, out);
    out.push((level, mid));
    sparse(ht.saturating_sub(2), mid + 1, level + 1, out)
}
fn main() {
    for ht in 2..9 {
        let mut ks = Vec::new();
        let n = sparse(ht, 0, 0, &mut ks);
        ks.sort();
        let thin: AvlMap<u32, u32> = ks.iter().map(|(_, k)| (*k, *k)).collect();
        let full: AvlMap<u32, u32> = (0..n).map(|i| (i, i)).collect();
        assert_eq!(thin, full);
        assert_eq!(h(&thin), h(&full), "{n} entries");
    }
}
'''
