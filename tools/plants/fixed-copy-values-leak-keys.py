property = "C05"
needs = "a fixed-node map whose keys own something and whose values are plain data of non-zero size"
breaks = "dropping a node skips its elements when the value type needs no drop, so the keys are leaked"
edits = [("src/btree/core.rs", """    fn drop(&mut self) {
        self.clear();
    }
""", """    fn drop(&mut self) {
        // nothing to do for plain data (Kids have () for values)
        if std::mem::needs_drop::<V>() || std::mem::size_of::<V>() == 0 {
            self.clear();
        }
    }
""")]
demo = r'''
use lazy_clone_collections::btree::fixed::BTreeMap;
use std::rc::Rc;
fn main() {
    let k = Rc::new(1u32);
    let mut m: BTreeMap<(u32, Rc<u32>), u32> = Default::default();
    for i in 0..40 { m.insert((i, k.clone()), i); }
    drop(m);
    assert_eq!(Rc::strong_count(&k), 1);
}
'''
