property = "C07"
needs = "a mutable range whose included upper bound is a key stored in a branch node, stepped from the back"
breaks = "range_mut descends to the right of an included upper bound and so yields elements in the wrong order"
edits = [("src/btree.rs", """        work.push_back(NodeIterMut {
            elems,
            kids,
            needs_lf_des: !edges.left_needs_pruning
                && edges.lb_elems == edges.lb_kids,
            needs_rt_des: !edges.right_needs_pruning
                && edges.ub_elems < edges.ub_kids,
        });
""", """        let needs_rt_des = !edges.right_needs_pruning && kids.len() > 0;
        work.push_back(NodeIterMut {
            elems,
            kids,
            needs_lf_des: !edges.left_needs_pruning
                && edges.lb_elems == edges.lb_kids,
            needs_rt_des,
        });
""")]
demo = r'''
use lazy_clone_collections::BTreeMap;
fn main() {
    for n in [5u32, 20, 100, 400] {
        for hi in 0..n {
            let mut m: BTreeMap<u32, u32> = (0..n).map(|i| (i, i)).collect();
            let got: Vec<u32> = m.range_mut(..=hi).rev().map(|(k, _)| *k).collect();
            let want: Vec<u32> = (0..=hi).rev().collect();
            assert_eq!(got, want);
        }
    }
}
'''
