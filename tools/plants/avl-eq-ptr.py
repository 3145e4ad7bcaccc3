property = "C17"
needs = "comparing a map with its clone when it holds a value that is not equal to itself (a float NaN)"
breaks = "AvlMap equality takes maps that share their root as equal without looking at the elements"
edits = [("src/avl.rs", """        self.len() == other.len()
            && self.iter().zip(other.iter()).all(|(x, y)| x == y)
""", """        if let (Some(a), Some(b)) = (&self.root, &other.root) {
            if Arc::ptr_eq(a, b) {
                return true;
            }
        }

        self.len() == other.len()
            && self.iter().zip(other.iter()).all(|(x, y)| x == y)
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
fn main() {
    let a = AvlMap::from([(1, 1.0), (2, f64::NAN)]);
    let s = std::collections::BTreeMap::from([(1, 1.0), (2, f64::NAN)]);
    assert_eq!(a == a.clone(), s == s.clone());
}
'''
