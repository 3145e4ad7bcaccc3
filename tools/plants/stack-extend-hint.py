property = "C11"
needs = "extending a stack from an iterator whose lower size hint is neither zero nor exact"
breaks = "Stack::extend takes the number of new elements from the iterator's lower size hint"
edits = [("src/stack.rs", """        for x in iter {
            self.push(x);
        }
    }
""", """        let iter = iter.into_iter();
        let known = iter.size_hint().0;
        let mut n = 0;

        // link the elements in; the announced ones are counted all at once
        self.len += known;
        for elem in iter {
            let rest = self.elems.take();
            self.elems = Some(Rc::new(List { elem, rest }));
            n += 1;
            if n > known && known == 0 {
                self.len += 1;
            }
        }
    }
""")]
demo = r'''
use lazy_clone_collections::Stack;
fn main() {
    let mut s: Stack<u32> = (0..3).collect();
    // lower bound 1, but four elements
    s.extend(std::iter::once(3).chain((4..10).filter(|i| i % 2 == 0)));
    assert_eq!(s.len(), 7);
    assert_eq!(s.iter().count(), 7);
    assert_eq!(s.remove(6), 8);
}
'''
