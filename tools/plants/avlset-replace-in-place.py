property = "C02"
needs = "AvlSet::replace of an element whose own node is not counted as shared although an ancestor of it is"
breaks = "AvlSet::replace swaps the element in place whenever the node that holds it has one owner, although that owner may belong to several sets"
edits = [("src/avl/avl_set.rs", """        // TODO: adapt insert so we don't need multiple calls.
        let ret = self.take(&value);
""", """        // swap the element where it is if nobody else can see it
        let mut curr = &mut self.map.root;
        let mut shared = false;
        while let Some(rc) = curr {
            shared = Arc::strong_count(rc) > 1;
            let n = unsafe { &mut *(Arc::as_ptr(rc) as *mut Node<T, ()>) };
            match value.cmp(&n.key) {
                Equal if shared => break,
                Equal => return Some(std::mem::replace(&mut n.key, value)),
                Less => curr = &mut n.left,
                Greater => curr = &mut n.right,
            }
        }

        // TODO: adapt insert so we don't need multiple calls.
        let ret = self.take(&value);
""")]
demo = r'''
use lazy_clone_collections::AvlSet;
use std::cmp::Ordering;
#[derive(Clone, Debug)]
struct E(u32, u32);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> Ordering { self.0.cmp(&o.0) } }
fn main() {
    let mut a: AvlSet<E> = (0..20).map(|i| E(i, 0)).collect();
    let b = a.clone();
    for i in 0..20 { assert_eq!(a.replace(E(i, 1)).unwrap().1, 0); }
    assert!(a.iter().all(|e| e.1 == 1));
    assert!(b.iter().all(|e| e.1 == 0));
}
'''
