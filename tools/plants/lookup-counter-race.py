property = "C14"
needs = "two threads that look up keys in their own clones at the same time"
breaks = "AvlMap::get_key_value keeps an unsynchronized statistics counter in a static"
edits = [("src/avl.rs", """        let mut curr = &self.root;
        while let Some(n) = curr {
            match k.cmp(n.key.borrow()) {
                Less => curr = &n.left,
                Equal => return Some((&n.key, &n.val)),
                Greater => curr = &n.right,
            }
        }

        None
    }
""", """        static mut DEEPEST_HIT: usize = 0;

        let mut curr = &self.root;
        let mut depth = 0;
        while let Some(n) = curr {
            match k.cmp(n.key.borrow()) {
                Less => curr = &n.left,
                Equal => {
                    unsafe {
                        if depth > DEEPEST_HIT {
                            DEEPEST_HIT = depth
                        }
                    }
                    return Some((&n.key, &n.val));
                }
                Greater => curr = &n.right,
            }
            depth += 1;
        }

        None
    }
""")]
run = "tsan"
demo = r'''
use lazy_clone_collections::AvlMap;
fn main() {
    let m: AvlMap<u32, u64> = (0..2000).map(|i| (i, i as u64)).collect();
    let ts: Vec<_> = (0..4).map(|_| {
        let m = m.clone();
        std::thread::spawn(move || (0..2000).map(|i| *m.get_key_value(&i).unwrap().1).sum::<u64>())
    }).collect();
    for t in ts { println!("{}", t.join().unwrap()); }
}
'''
