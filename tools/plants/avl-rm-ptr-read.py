property = "C16"
needs = "removing an entry with two children from a map that is shared below that entry, with an element clone that panics on the way to the successor"
breaks = "removal moves the old entry out of its node with ptr::read before it fetches the successor, so a panic meanwhile drops the entry twice"
edits = [("src/avl.rs", """                let (succ, is_shorter) = rm_leftmost(&mut n.right);
                let (succ_key, succ_val) = succ.unwrap();
                let old_key = replace(&mut n.key, succ_key);
                let old_val = replace(&mut n.val, succ_val);
                let old_elt = (old_key, old_val);
""", """                let old_elt = unsafe {
                    (std::ptr::read(&n.key), std::ptr::read(&n.val))
                };
                let (succ, is_shorter) = rm_leftmost(&mut n.right);
                let (succ_key, succ_val) = succ.unwrap();
                unsafe {
                    std::ptr::write(&mut n.key, succ_key);
                    std::ptr::write(&mut n.val, succ_val);
                }
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
thread_local! {
    static LEFT: Cell<usize> = Cell::new(usize::MAX);
    static IDS: RefCell<(u32, HashSet<u32>)> = RefCell::new((0, HashSet::new()));
    static TWICE: Cell<usize> = Cell::new(0);
}
struct V(u32);
fn fresh() -> V { IDS.with(|i| { let mut i = i.borrow_mut(); i.0 += 1; let n = i.0; i.1.insert(n); V(n) }) }
impl Clone for V {
    fn clone(&self) -> V {
        LEFT.with(|n| { n.set(n.get() - 1); if n.get() == 0 { panic!("clone") } });
        fresh()
    }
}
impl Drop for V {
    fn drop(&mut self) {
        IDS.with(|i| if !i.borrow_mut().1.remove(&self.0) { TWICE.with(|t| t.set(t.get() + 1)) });
    }
}
fn main() {
    for k in 1..12 {
        let mut m: AvlMap<u32, V> = (0..31).map(|i| (i, fresh())).collect();
        let keep = m.clone();
        let root = 15;
        LEFT.with(|n| n.set(k));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.remove(&root); }));
        LEFT.with(|n| n.set(usize::MAX));
        drop(m);
        assert_eq!(keep.iter().count(), 31);
    }
    assert_eq!(TWICE.with(|t| t.get()), 0);
}
'''
