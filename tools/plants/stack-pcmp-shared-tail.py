property = "C17"
needs = "partially comparing stacks that share a tail holding an element not equal to itself"
breaks = "Stack::partial_cmp reports equality as soon as both stacks reach the same shared node"
edits = [("src/stack.rs", """        let mut xs = self.iter();
        let mut ys = other.iter();

        loop {
            match""", """        let mut xs = self.iter();
        let mut ys = other.iter();

        loop {
            // the rest is shared
            if let (Some(x), Some(y)) = (xs.next, ys.next) {
                if Rc::ptr_eq(x, y) {
                    return Some(Equal);
                }
            }

            match""")]
demo = r'''
use lazy_clone_collections::Stack;
fn main() {
    let mut a: Stack<f64> = [1.0, f64::NAN, 2.0].into_iter().collect();
    let b = a.clone();
    assert_eq!(a.partial_cmp(&b), None);
    a.push(7.0);
    a.pop();
    assert_eq!(a.partial_cmp(&b), None);
    assert!(a != b);
}
'''
