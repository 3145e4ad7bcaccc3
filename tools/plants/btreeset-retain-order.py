property = "C10"
needs = "retain on a B-tree set with a closure that depends on the order in which it is called"
breaks = "BTreeSet::retain visits the elements from the last to the first"
edits = [("src/btree/btree_set.rs", """        self.extend(s.into_iter().filter(f));
    }
""", """        // the greatest first, so that insertion splits off small nodes
        self.extend(s.into_iter().rev().filter(f));
    }
""")]
demo = r'''
use lazy_clone_collections::BTreeSet;
fn main() {
    let mut s: BTreeSet<u32> = (0..20).collect();
    let mut n = 0;
    s.retain(|_| { n += 1; n <= 5 });
    assert_eq!(s.iter().copied().collect::<Vec<_>>(), vec![0, 1, 2, 3, 4]);
}
'''
