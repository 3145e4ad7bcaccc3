property = "C16"
needs = "extending a stack from an iterator that panics after some elements, and the stack used afterwards"
breaks = "Stack::extend counts the new elements only at the end, so that after a panic of the source iterator the length is less than what the stack holds"
edits = [("src/stack.rs", """        for x in iter {
            self.push(x);
        }
    }
""", """        let mut n = 0;
        for elem in iter {
            let rest = self.elems.take();
            self.elems = Some(Rc::new(List { elem, rest }));
            n += 1;
        }
        self.len += n;
    }
""")]
demo = r'''
use lazy_clone_collections::Stack;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let mut s: Stack<u32> = (0..3).collect();
    let r = catch_unwind(AssertUnwindSafe(|| s.extend((3..9).inspect(|i| if *i == 7 { panic!() }))));
    assert!(r.is_err());
    assert!(s.len() >= s.iter().count());
    while s.pop().is_some() {}
    assert_eq!(s.len(), 0);
}
'''
