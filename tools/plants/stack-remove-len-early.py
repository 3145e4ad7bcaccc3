property = "C16"
needs = "an element clone that panics while remove() copies the shared part of a stack"
breaks = "Stack::remove lowers the length before it copies the nodes, so a panicking clone leaves a wrong length"
edits = [("src/stack.rs", """        let mut at = self.len - 1 - at;

        // find the link we need to update
""", """        self.len -= 1;
        let mut at = self.len - at;

        // find the link we need to update
"""), ("src/stack.rs", """            at -= 1;
        }

        self.len -= 1;

        // Route around""", """            at -= 1;
        }

        // Route around""")]
demo = r'''
use lazy_clone_collections::Stack;
use std::cell::Cell;
thread_local!(static N: Cell<usize> = Cell::new(usize::MAX));
struct V;
impl Clone for V {
    fn clone(&self) -> V {
        N.with(|n| { n.set(n.get() - 1); if n.get() == 0 { panic!("clone") } });
        V
    }
}
fn main() {
    let mut s: Stack<V> = (0..10).map(|_| V).collect();
    let keep = s.clone();
    N.with(|n| n.set(3));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { s.remove(2); }));
    assert!(r.is_err());
    N.with(|n| n.set(usize::MAX));
    assert_eq!(s.len(), s.iter().count());
    assert_eq!(keep.len(), 10);
}
'''
