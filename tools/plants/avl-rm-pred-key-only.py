property = "C03"
needs = "removals of entries with two children in a tree of more than six levels whose left side is the higher one"
breaks = "removal takes the replacement from the higher left side of a tall tree, but does not pass on that the subtree has become lower"
edits = [("src/avl.rs", """            _ => {
                // both children are populated
""", """            _ if n.left_ht > n.right_ht && n.left_ht > 6 => {
                // take the replacement from the higher side, so that no
                // rotation is needed here
                let (pred, is_shorter) = rm_rightmost(&mut n.left);
                let (pred_key, pred_val) = pred.unwrap();
                let old_key = replace(&mut n.key, pred_key);
                let old_val = replace(&mut n.val, pred_val);

                n.left_ht -= is_shorter.0 as i8;
                (Some((old_key, old_val)), IsShorter(false))
            }

            _ => {
                // both children are populated
""")]
demo = r'''
use lazy_clone_collections::{AvlMap, Map};
fn main() {
    let mut x = 12345u64;
    let mut rnd = |n: u64| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) % n
    };
    for _ in 0..20 {
        let mut m = AvlMap::new();
        for _ in 0..600 { m.insert(rnd(2000), ()); }
        for _ in 0..3000 {
            m.remove(&rnd(2000));
            m.insert(rnd(2000), ());
            m.check().unwrap();
        }
    }
}
'''
