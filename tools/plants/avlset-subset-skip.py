property = "C09"
needs = "a subset test on AVL sets of some depth where the candidate skips several keys of the other set"
breaks = "AvlSet::is_subset pops several nodes at once that are too small, but follows only the first one's right child"
edits = [("src/avl/avl_set.rs", """                        // TODO: we may be able to pop multiple nodes from rhs
                        let rhs = w.pop().unwrap().0;
                        if let Some(rhs_right) = rhs.right.as_ref() {
                            w.push((rhs_right, rhs_right.left.is_none()));
                        }
""", """                        let rhs = w.pop().unwrap().0;
                        if let Some(rhs_right) = rhs.right.as_ref() {
                            w.push((rhs_right, rhs_right.left.is_none()));
                        } else {
                            while w.len() > 1
                                && w.last().map_or(false, |n| {
                                    n.0.key < lhs.key
                                })
                            {
                                w.pop();
                            }
                        }
""")]
demo = r'''
use lazy_clone_collections::AvlSet;
fn main() {
    let b: AvlSet<u32> = (0..200).collect();
    for i in 0..200u32 {
        for j in (i..200).step_by(7) {
            let a: AvlSet<u32> = [i, j].into_iter().collect();
            assert!(a.is_subset(&b), "{i} {j}");
        }
    }
}
'''
