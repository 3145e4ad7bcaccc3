property = "C08"
needs = "an intersection whose left operand's tree is at least eight levels higher than the right one's, with differing values under common keys"
breaks = "intersect walks the lower tree when the left one is much higher, and then keeps that tree's entries: the right operand's"
edits = [("src/avl.rs", """        deconflict: &mut |lhs, _| Some(lhs),
        entry_dummy: std::marker::PhantomData,
    };

    merger.merge(opt_t1, opt_t2)
""", """        deconflict: &mut |lhs, _| Some(lhs),
        entry_dummy: std::marker::PhantomData,
    };

    // drive the merge by the smaller tree: it has fewer keys to split at
    if height(&opt_t1) > height(&opt_t2) + 7 {
        merger.merge(opt_t2, opt_t1)
    } else {
        merger.merge(opt_t1, opt_t2)
    }
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
fn main() {
    let a: AvlMap<u32, u32> = (0..2000).map(|i| (i, 1)).collect();
    let b: AvlMap<u32, u32> = (0..3).map(|i| (i * 7, 2)).collect();
    let i = AvlMap::new_intersect(a, b);
    assert_eq!(i.len(), 3);
    assert!(i.values().all(|v| *v == 1));
}
'''
