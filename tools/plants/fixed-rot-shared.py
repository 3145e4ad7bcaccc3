property = "C02"
needs = "a removal in a clone whose rebalancing borrows an entry from a sibling leaf that is still shared with the original"
breaks = "rotating an entry between fixed nodes writes to the receiving sibling in place even if another map shares it"
edits = [("src/btree/core.rs", """        let left = Arc::make_mut(left);
        let (k0, v0) = left.elems.pop();
        let k0_to_k1 = left.kids.as_mut().map(|b| b.pop());
""", """        // the left sibling lives at least as long as this node
        let left = if left.kids.is_some() {
            Arc::make_mut(left)
        } else {
            unsafe { &mut *(Arc::as_ptr(left) as *mut Node<K, V>) }
        };
        let (k0, v0) = left.elems.pop();
        let k0_to_k1 = left.kids.as_mut().map(|b| b.pop());
""")]
demo = r'''
use lazy_clone_collections::btree::fixed::BTreeMap;
fn main() {
    let mut x = 12345u64;
    for n in 10..200u32 {
        let mut a: BTreeMap<u32, String> = BTreeMap::new();
        for i in 0..n { a.insert(i.wrapping_mul(2654435761) % 1000, i.to_string()); }
        let before: Vec<(u32, String)> = a.iter().map(|(k, v)| (*k, v.clone())).collect();
        for _ in 0..n {
            let mut b = a.clone();
            for _ in 0..3 {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                b.remove(&before[(x >> 33) as usize % before.len()].0);
            }
            assert!(a.iter().map(|(k, v)| (*k, v.clone())).eq(before.iter().cloned()), "the original changed");
        }
    }
}
'''
