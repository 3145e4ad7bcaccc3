property = "C09"
needs = "new_intersection of sets of very different sizes where the greatest element of the small set is the last common one"
breaks = "BTreeSet::new_intersection stops at the greatest element of the bigger set, exclusively, when the sizes differ by a lot"
edits = [("src/btree/btree_set.rs", """        if lhs.len() < rhs.len() {
            lhs.into_iter().filter(|k| rhs.contains(k)).collect()
        } else {""", """        if lhs.len() < rhs.len() / 8 {
            // whatever is beyond the end of rhs need not be looked up
            let Some(last) = rhs.last() else {
                return Self::new();
            };
            lhs.into_iter()
                .take_while(|k| k < last)
                .filter(|k| rhs.contains(k))
                .collect()
        } else if lhs.len() < rhs.len() {
            lhs.into_iter().filter(|k| rhs.contains(k)).collect()
        } else {""")]
demo = r'''
use lazy_clone_collections::BTreeSet;
fn main() {
    let big: BTreeSet<u32> = (0..200).collect();
    for last in 190..210 {
        let small = BTreeSet::from([3, 77, last]);
        let got = BTreeSet::new_intersection(small.clone(), big.clone());
        assert!(got.iter().eq(small.iter().filter(|k| big.contains(k))));
    }
}
'''
