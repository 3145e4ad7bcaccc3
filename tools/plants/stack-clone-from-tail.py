property = "C11"
needs = "clone_from onto a stack that shares its bottom part with the source but is longer than it"
breaks = "a hand-written clone_from that keeps the common shared part pops until the lengths agree, but takes equal lengths for equal contents"
edits = [("src/stack.rs", """#[derive(Clone)]
pub struct Stack<T> {
    len: usize,
    elems: OptList<T>,
}
""", """pub struct Stack<T> {
    len: usize,
    elems: OptList<T>,
}

impl<T> Clone for Stack<T> {
    fn clone(&self) -> Self {
        Stack {
            len: self.len,
            elems: self.elems.clone(),
        }
    }

    // Often the target was made from the source by some pushes: then unwinding
    // those is all there is to do.
    fn clone_from(&mut self, source: &Self) {
        let mut links = Vec::new();
        let mut curr = &self.elems;
        while let Some(rc) = curr {
            links.push(rc);
            curr = &rc.rest;
        }
        let shares = match (links.first(), source.elems.as_ref()) {
            (Some(_), Some(src)) => {
                links.iter().any(|rc| Rc::ptr_eq(rc, src))
            }
            _ => false,
        };
        if shares && self.len > source.len {
            let elems = source.elems.clone();
            self.clear();
            self.elems = elems;
            self.len = links_len(&self.elems);
        } else {
            let copy = source.clone();
            self.clear();
            *self = copy;
        }
    }
}

// counts the links below the top one
fn links_len<T>(elems: &OptList<T>) -> usize {
    let mut n = 0;
    let mut curr = elems;
    while let Some(rc) = curr {
        n += rc.rest.is_some() as usize;
        curr = &rc.rest;
    }
    n
}
""")]
demo = r'''
use lazy_clone_collections::Stack;
fn main() {
    let a: Stack<u32> = (0..5).collect();
    let mut b = a.clone();
    b.push(7);
    b.clone_from(&a);
    assert_eq!(b.len(), 5);
    assert_eq!(b.iter().count(), 5);
}
'''
