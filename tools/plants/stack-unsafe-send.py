property = "C15"
needs = "moving a stack to another thread while a clone that shares its nodes stays behind"
breaks = "Stack is declared Send although its reference counts are not atomic"
edits = [("src/stack.rs", """#[derive(Clone)]
pub struct Stack<T> {
    len: usize,
    elems: OptList<T>,
}
""", """#[derive(Clone)]
pub struct Stack<T> {
    elems: OptList<T>,
    len: usize,
}

// a stack owns its elements
unsafe impl<T: Send> Send for Stack<T> {}
""")]
demo = r'''
// Which of the two applies is decided by whether Stack<u32> is Send.
use lazy_clone_collections::Stack;
struct Probe<T>(std::marker::PhantomData<T>);
trait No { fn is_send(&self) -> bool { false } }
impl<T> No for Probe<T> {}
impl<T: Send> Probe<T> { fn is_send(&self) -> bool { true } }
fn main() {
    assert!(!Probe::<Stack<u32>>(std::marker::PhantomData).is_send());
    assert!(Probe::<Vec<u32>>(std::marker::PhantomData).is_send());
}
'''
