property = "C09"
needs = "a symmetric difference of sets that share nodes (one was cloned from the other and then changed)"
breaks = "Merger::merge short-circuits operands that are the same node, keeping them also where common entries are to be dropped"
edits = [("src/avl.rs", """            (_, None, Discard, _) => return None,
            _ => (),
        }
""", """            (_, None, Discard, _) => return None,
            // a subtree merged with itself: no need to take it apart
            (Some(t1), Some(t2), on_left, on_right)
                if Arc::ptr_eq(t1, t2) =>
            {
                return match (on_left, on_right) {
                    (Keep, Discard) => None, // difference
                    _ => opt_t1,
                }
            }
            _ => (),
        }
""")]
demo = r'''
use lazy_clone_collections::AvlSet;
fn main() {
    let a: AvlSet<u32> = (0..50).collect();
    let mut b = a.clone();
    b.insert(1000);
    let d = &a ^ &b;
    assert_eq!(d.iter().copied().collect::<Vec<_>>(), vec![1000]);
    assert_eq!(d.len(), 1);
}
'''
