property = "C14"
needs = "two threads: one drops the last other handle to a shared node while the other updates it in place"
breaks = "BTreeMap::get_mut takes a reference count of one, read without any synchronisation, as leave to write the root in place"
edits = [("src/btree.rs", """        let rc = self.root.as_mut()?;
        let n = Arc::make_mut(rc);
        n.get_mut(key).map(|e| &mut e.1)
""", """        let rc = self.root.as_mut()?;
        let n = if Arc::strong_count(rc) == 1 {
            // sole owner: spare the atomic updates of make_mut
            unsafe { &mut *(Arc::as_ptr(rc) as *mut Node<K, V, N>) }
        } else {
            Arc::make_mut(rc)
        };
        n.get_mut(key).map(|e| &mut e.1)
""")]
demo = r'''
use lazy_clone_collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
fn main() {
    for _ in 0..20 {
        let mut a: BTreeMap<u32, u32> = (0..4).map(|i| (i, i)).collect();
        let b = a.clone();
        let gone = AtomicBool::new(false);
        std::thread::scope(|s| {
            let gone = &gone;
            s.spawn(move || { assert_eq!(b.get(&2), Some(&2)); drop(b); gone.store(true, Relaxed); });
            s.spawn(|| {
                while !gone.load(Relaxed) { std::thread::yield_now() }
                *a.get_mut(&2).unwrap() = 5;
            });
        });
    }
}
'''
run = "miri"
