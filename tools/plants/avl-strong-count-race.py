property = "C14"
needs = "a thread that drops its clone of a map just before another thread updates its own in place: only a race detector sees that nothing orders the former's reads before the latter's writes"
breaks = "AvlMap::get_mut decides by the (relaxed) strong count that a node is unshared and writes to it without synchronizing with the thread that dropped the other reference"
edits = [("src/avl.rs", """        let mut curr = &mut self.root;
        while let Some(rc) = curr {
            let n = Arc::make_mut(rc);
            match k.cmp(n.key.borrow()) {
                Less => curr = &mut n.left,
                Equal => return Some(&mut n.val),
                Greater => curr = &mut n.right,
            }
        }

        None
    }
""", """        let mut curr = &mut self.root;
        while let Some(rc) = curr {
            let n = if Arc::strong_count(rc) == 1 {
                // not shared; there are no weak references to nodes
                unsafe { &mut *(Arc::as_ptr(rc) as *mut Node<K, V>) }
            } else {
                Arc::make_mut(rc)
            };
            match k.cmp(n.key.borrow()) {
                Less => curr = &mut n.left,
                Equal => return Some(&mut n.val),
                Greater => curr = &mut n.right,
            }
        }

        None
    }
""")]
run = "tsan"
demo = r'''
use lazy_clone_collections::AvlMap;
use std::sync::atomic::{AtomicBool, Ordering};
static DONE: AtomicBool = AtomicBool::new(false);
fn main() {
    let mut m: AvlMap<u32, u64> = (0..7).map(|i| (i, i as u64)).collect();
    let c = m.clone();
    let t = std::thread::spawn(move || {
        let mut sum = 0;
        for i in 0..7 { sum += c[&i]; }
        drop(c);
        DONE.store(true, Ordering::Relaxed);
        sum
    });
    // no ordering from this: the map itself has to provide it
    while !DONE.load(Ordering::Relaxed) { std::hint::spin_loop(); }
    for i in 0..7 { *m.get_mut(&i).unwrap() += 1; }
    println!("{}", t.join().unwrap());
}
'''
