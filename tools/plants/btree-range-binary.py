property = "C07"
needs = "a tree with big nodes (N of at least 9) and a range whose included lower bound is a stored key"
breaks = "the lower edge of a range is found by binary search in big nodes, which skips a key equal to an included bound"
edits = [("src/btree.rs", """    // find the left edge
    let mut elems = n.elems.iter().enumerate().peekable();
""", """    // find the left edge
    let mut elems = n.elems.iter().enumerate().peekable();
    if n.elems.len() > 16 {
        // skip the elements that are certainly below the lower bound
        let below = match lb {
            Bound::Unbounded => 0,
            Bound::Included(b) | Bound::Excluded(b) => {
                n.elems.partition_point(|e| e.0.borrow() <= b)
            }
        };
        if below > 0 {
            elems.nth(below - 1);
        }
    }
""")]
demo = r'''
use lazy_clone_collections::btree::BTreeMap;
use std::ops::Bound::*;
fn main() {
    let m: BTreeMap<u32, u32, 9> = (0..1000).map(|i| (i * 2, i)).collect();
    let s: std::collections::BTreeMap<u32, u32> = m.iter().map(|(k, v)| (*k, *v)).collect();
    for lo in 0..2000u32 {
        assert!(m.range((Excluded(lo), Unbounded)).take(30).eq(s.range((Excluded(lo), Unbounded)).take(30)), "{lo}");
        assert!(m.range((Included(lo), Included(2000))).take(30).eq(s.range((Included(lo), Included(2000))).take(30)), "{lo}");
    }
}
'''
