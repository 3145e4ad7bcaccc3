property = "C05"
needs = "a consuming iterator over a fixed-node map stepping backwards over a map that is one shared leaf, whose other owners are dropped meanwhile"
breaks = "the consuming iterator moves an element out of a leased leaf that turned out to be unshared, without disowning it, so the leaf drops it again"
edits = [("src/btree/core.rs", """                Leased(arc) => (
                    arc.key(self.end_elems).clone(),
                    arc.val(self.end_elems).clone(),
                ),""", """                Leased(arc) => match Arc::get_mut(arc) {
                    Some(n) if n.kids.is_none() => unsafe {
                        // the last owner: no need to clone
                        let k = n.elems.keys[self.end_elems].assume_init_read();
                        let v = n.elems.vals[self.end_elems].assume_init_read();
                        (k, v)
                    },
                    _ => (
                        arc.key(self.end_elems).clone(),
                        arc.val(self.end_elems).clone(),
                    ),
                },""")]
run = "miri"
demo = r'''
use lazy_clone_collections::btree::fixed::BTreeMap;
fn main() {
    for at in 1..5 {
        let mut a: BTreeMap<u32, String> = BTreeMap::new();
        for i in 0..6 { a.insert(i, i.to_string()); }
        let c = a.clone();
        let mut it = a.into_iter();
        for _ in 0..at { it.next_back(); }
        drop(c);
        assert_eq!(it.next_back().unwrap().0, 5 - at);
    }
}
'''
