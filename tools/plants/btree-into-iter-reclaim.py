property = "C06"
needs = "a consuming iterator half way through a map that is one shared leaf, whose other owners are dropped before the next step"
breaks = "BTreeMap's consuming iterator moves elements out of a leaf as soon as it is the last owner, but forgets the elements of that leaf it already handed out as clones"
edits = [("src/btree.rs", """            IntoNodeIter::Arcked(b) => {
                assert!(!b.needs_lf_des);
                b.needs_lf_des = b.lb_kids < b.ub_kids;
                if b.lb_elems < b.ub_elems {
                    b.lb_elems += 1;""", """            IntoNodeIter::Arcked(b) => {
                assert!(!b.needs_lf_des);
                b.needs_lf_des = b.lb_kids < b.ub_kids;
                if b.lb_elems < b.ub_elems {
                    if let Some(n) = Arc::get_mut(&mut b.n) {
                        if n.is_leaf() {
                            // we are the last owner by now: no need to clone
                            b.ub_elems -= 1;
                            return Some(n.elems.remove(0));
                        }
                    }
                    b.lb_elems += 1;""")]
demo = r'''
use lazy_clone_collections::BTreeMap;
fn main() {
    let a: BTreeMap<u32, String> = (0..9).map(|i| (i, i.to_string())).collect();
    for at in 0..9 {
        let b: BTreeMap<u32, String> = a.iter().map(|(k, v)| (*k, v.clone())).collect();
        let c = b.clone();
        let mut it = b.into_iter();
        let mut got: Vec<u32> = it.by_ref().take(at).map(|e| e.0).collect();
        drop(c);
        got.extend(it.map(|e| e.0));
        assert!(got.into_iter().eq(0..9), "after {at}");
    }
}
'''
