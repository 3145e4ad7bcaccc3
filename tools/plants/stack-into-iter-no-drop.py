property = "C12"
needs = "a consuming iterator over a very long stack that shares nothing, dropped before it is exhausted"
breaks = "the consuming iterator holds bare nodes, whose drop recurses, instead of a stack, whose drop loops"
edits = [("src/stack.rs", """pub struct IntoIter<T> {
    stk: Stack<T>,
}
""", """pub struct IntoIter<T> {
    next: OptList<T>,
}
"""), ("src/stack.rs", """    fn next(&mut self) -> Option<Self::Item> {
        self.stk.pop()
    }
""", """    fn next(&mut self) -> Option<Self::Item> {
        match Rc::try_unwrap(self.next.take()?) {
            Ok(list) => {
                self.next = list.rest;
                Some(list.elem)
            }
            Err(rc) => {
                self.next = rc.rest.clone();
                Some(rc.elem.clone())
            }
        }
    }
"""), ("src/stack.rs", """    fn into_iter(self) -> Self::IntoIter {
        IntoIter { stk: self }
    }
""", """    fn into_iter(mut self) -> Self::IntoIter {
        IntoIter {
            next: self.elems.take(),
        }
    }
""")]
demo = r'''
use lazy_clone_collections::Stack;
fn main() {
    let s: Stack<u32> = (0..2_000_000).collect();
    let mut it = s.into_iter();
    assert_eq!(it.next(), Some(1_999_999));
    drop(it);
}
'''
