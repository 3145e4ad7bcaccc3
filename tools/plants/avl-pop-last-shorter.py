property = "C03"
needs = "pop_last on a map whose root (or a node on its right edge) is left-heavy with a balanced left child, so that the rotation does not lower the subtree"
breaks = "rm_rightmost assumes that every rebalancing rotation makes the subtree shorter, so the recorded heights go wrong and the balance with them"
edits = [("src/avl.rs", """        if is_shorter.0 && n.bal() < -1 {
            (kv, rebal_lf_to_rt(root))
        } else {
            (kv, IsShorter(is_shorter.0 && n.bal() == 0))
        }
    } else {
        let old_n = take_node(root);
        *root = old_n.left;
""", """        if is_shorter.0 && n.bal() < -1 {
            rebal_lf_to_rt(root);
            (kv, is_shorter)
        } else {
            (kv, IsShorter(is_shorter.0 && n.bal() == 0))
        }
    } else {
        let old_n = take_node(root);
        *root = old_n.left;
""")]
demo = r'''
use lazy_clone_collections::{AvlMap, Map};
fn main() {
    // small permutations of insertions, then pops from the end, checked after every step
    let mut x = 12345u64;
    for n in 3..60u64 {
        for _ in 0..40 {
            let mut m = AvlMap::new();
            for _ in 0..n {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                m.insert((x >> 33) % 1000, ());
            }
            while m.pop_last().is_some() { m.check().unwrap(); }
        }
    }
}
'''
