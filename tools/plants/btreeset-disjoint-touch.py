property = "C09"
needs = "two sets whose only common element is the last of one and the first of the other"
breaks = "a shortcut in BTreeSet::is_disjoint for sets that do not overlap also takes sets that touch"
edits = [("src/btree/btree_set.rs", """        self.intersection(other).next().is_none()
""", """        // separate ranges?
        if self.last() <= other.first() || other.last() <= self.first() {
            return self.len() + other.len() > 0;
        }
        self.intersection(other).next().is_none()
""")]
demo = r'''
use lazy_clone_collections::BTreeSet;
fn main() {
    let a = BTreeSet::from([1, 2, 3]);
    let b = BTreeSet::from([3, 4, 5]);
    assert!(!a.is_disjoint(&b));
    assert!(!b.is_disjoint(&a));
}
'''
