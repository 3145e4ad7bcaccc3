property = "C16"
needs = "pop_first on a map that shares nodes with a clone, where cloning an element panics"
breaks = "pop_first counts the entry as removed before copying the shared path: if a clone panics the map keeps all its entries but understates its length"
edits = [("src/avl.rs", """        let kv = rm_leftmost(&mut self.root).0?;
        self.len -= 1;
        Some(kv)
""", """        self.len = self.len.checked_sub(1)?;
        rm_leftmost(&mut self.root).0
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static BOMB: AtomicBool = AtomicBool::new(false);
#[derive(PartialEq, Eq, Debug)]
struct V(u32);
impl Clone for V {
    fn clone(&self) -> V {
        if BOMB.load(SeqCst) { panic!("clone") }
        V(self.0)
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut a: AvlMap<u32, V> = (0..20).map(|i| (i, V(i))).collect();
    let b = a.clone();
    BOMB.store(true, SeqCst);
    assert!(catch_unwind(AssertUnwindSafe(|| { a.pop_first(); })).is_err());
    BOMB.store(false, SeqCst);
    assert_eq!(b.len(), 20);
    assert!(a.iter().take(100).map(|e| e.0).count() <= 20);
    assert!(a.len() >= (0..20).filter(|k| a.contains_key(k)).count());
}
'''
