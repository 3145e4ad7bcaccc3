property = "C10"
needs = "retain on a set that shares a subtree, but not its root, with a clone"
breaks = "AvlSet::retain silently loses subtrees that are shared with another set"
edits = [("src/avl/avl_set.rs", """            if let Some(mut lf) = n.left {
                Arc::make_mut(&mut lf);
                if let Ok(x) = Arc::try_unwrap(lf) {
                    dfs(x, f, acc);
                }
            }
""", """            if let Some(lf) = n.left {
                if let Ok(x) = Arc::try_unwrap(lf) {
                    dfs(x, f, acc);
                }
            }
""")]
demo = r'''
use lazy_clone_collections::AvlSet;
fn main() {
    let mut a: AvlSet<u32> = (0..20).collect();
    let b = a.clone();
    a.retain(|_| true);
    assert!(a.iter().copied().eq(0..20));
    assert_eq!(b.len(), 20);
}
'''
