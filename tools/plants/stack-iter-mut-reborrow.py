property = "C15"
needs = "iter_mut on a stack, with a reference it returned used after the iterator moved on"
breaks = "IterMut steps from the node it last returned by borrowing that whole node again, which invalidates the reference it handed out"
edits = [("src/stack.rs", """    next: Option<&'a mut Rc<List<T>>>,
}

impl<'a, T: Clone> Iterator for IterMut<'a, T>
where
    T: 'a,
{
    type Item = &'a mut T;

    fn next(&mut self) -> Option<Self::Item> {
        self.next.take().map(|rc| {
            let list = Rc::make_mut(rc);
            self.next = list.rest.as_mut();
            &mut list.elem
        })
    }
}
""", """    next: Option<&'a mut Rc<List<T>>>,
    // the node that was last returned: its link is followed only when needed
    prev: Option<std::ptr::NonNull<List<T>>>,
}

impl<'a, T: Clone> Iterator for IterMut<'a, T>
where
    T: 'a,
{
    type Item = &'a mut T;

    fn next(&mut self) -> Option<Self::Item> {
        if let Some(mut p) = self.prev.take() {
            let list: &'a mut List<T> = unsafe { p.as_mut() };
            self.next = list.rest.as_mut();
        }

        self.next.take().map(|rc| {
            let list = Rc::make_mut(rc);
            self.prev = Some(list.into());
            let list: &'a mut List<T> =
                unsafe { self.prev.unwrap().as_mut() };
            &mut list.elem
        })
    }
}
"""), ("src/stack.rs", """            next: self.elems.as_mut(),
""", """            next: self.elems.as_mut(),
            prev: None,
""")]
run = "miri"
demo = r'''
use lazy_clone_collections::Stack;
fn main() {
    let mut s: Stack<u32> = (0..5).collect();
    let refs: Vec<&mut u32> = s.iter_mut().collect();
    for r in refs { *r += 10; }
    assert!(s.iter().copied().eq((10..15).rev()));
}
'''
