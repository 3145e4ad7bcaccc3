property = "C12"
needs = "removing near the bottom of a stack of a hundred thousand elements"
breaks = "Stack::remove walks to the node recursively, so removing deep in a long stack overflows the call stack"
edits = [("src/stack.rs", """        // switch to counting elements from the top
        let mut at = self.len - 1 - at;

        // find the link we need to update
        let mut curr = &mut self.elems;
        while at > 0 {
            // we must ensure we have sole ownership of all the nodes up to the
            // one we're dropping so we can route around it
            let n = Rc::make_mut(curr.as_mut().unwrap());
            curr = &mut n.rest;
            at -= 1;
        }

        self.len -= 1;

        // Route around the node we're dropping.  If the node is shared, we need
        // to clone its contents, but not the node itself.
        match Rc::try_unwrap(curr.take().unwrap()) {
            Ok(n) => {
                *curr = n.rest;
                n.elem
            }

            Err(n) => {
                *curr = n.rest.clone();
                n.elem.clone()
            }
        }
    }
""", """        fn rm<T: Clone>(
            link: &mut Option<Rc<List<T>>>,
            at: usize,
            len: &mut usize,
        ) -> T {
            if at > 0 {
                // we must ensure we have sole ownership of all the nodes up to
                // the one we're dropping so we can route around it
                let n = Rc::make_mut(link.as_mut().unwrap());
                let elem = rm(&mut n.rest, at - 1, len);
                debug_assert!(*len > 0 || n.rest.is_none());
                return elem;
            }

            *len -= 1;

            // Route around the node we're dropping.  If the node is shared, we
            // need to clone its contents, but not the node itself.
            match Rc::try_unwrap(link.take().unwrap()) {
                Ok(n) => {
                    *link = n.rest;
                    n.elem
                }

                Err(n) => {
                    *link = n.rest.clone();
                    n.elem.clone()
                }
            }
        }

        // switch to counting elements from the top
        let at = self.len - 1 - at;
        rm(&mut self.elems, at, &mut self.len)
    }
""")]
demo = r'''
use lazy_clone_collections::Stack;
fn main() {
    let n = 200_000;
    let mut s: Stack<String> = (0..n).map(|i| i.to_string()).collect();
    let c = s.clone();
    assert_eq!(s.remove(5), "5");
    assert_eq!(s.len() + 1, c.len());
}
'''
