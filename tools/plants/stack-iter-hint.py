property = "C06"
needs = "asking a stack's iterator for its size hint after skipping elements with nth"
breaks = "Stack's iterator knows how many elements are left, but skipping with nth does not lower that number"
edits = [("src/stack.rs", """pub struct Iter<'a, T> {
    next: &'a OptList<T>,
}
""", """pub struct Iter<'a, T> {
    next: &'a OptList<T>,
    left: usize,
}
"""), ("src/stack.rs", """                let ret = &rc.elem;
                self.next = &rc.rest;
                Some(ret)
            }
            None => None,
        }
    }
}
""", """                let ret = &rc.elem;
                self.next = &rc.rest;
                self.left -= 1;
                Some(ret)
            }
            None => None,
        }
    }

    // skip along the links
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            self.next = &self.next.as_ref()?.rest;
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left, Some(self.left))
    }
}
"""), ("src/stack.rs", "        Iter { next: &self.elems }\n", """        Iter {
            next: &self.elems,
            left: self.len,
        }
""")]
demo = r'''
use lazy_clone_collections::Stack;
fn main() {
    let s: Stack<u32> = (0..10).collect();
    let mut i = s.iter();
    assert_eq!(i.nth(3), Some(&6));
    let (lo, hi) = i.size_hint();
    assert!(lo <= 6 && hi.map_or(true, |h| h >= 6));
    assert_eq!(i.count(), 6);
}
'''
