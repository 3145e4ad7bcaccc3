property = "C17"
needs = "two maps that differ in a value before they differ in a key, with the two differences pointing in opposite directions"
breaks = "BTreeMap's total order compares all keys before any value instead of entry by entry"
edits = [("src/btree.rs", """    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.iter().cmp(other.iter())
    }
""", """    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.keys()
            .cmp(other.keys())
            .then_with(|| self.values().cmp(other.values()))
    }
""")]
demo = r'''
use lazy_clone_collections::BTreeMap;
fn main() {
    let a = BTreeMap::from([(1, 2), (3, 0)]);
    let b = BTreeMap::from([(1, 1), (4, 0)]);
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Greater);
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
}
'''
