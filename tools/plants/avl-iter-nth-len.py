property = "C06"
needs = "skipping past the end of an iterator with nth(), then asking its length or stepping it again"
breaks = "a faster nth for AVL iterators that returns early when asked to skip beyond the end, without consuming what was left"
edits = [("src/avl.rs", """impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);

    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
}
""", """impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);

    fn next(&mut self) -> Option<Self::Item> {
        self.nth(0)
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.iter.len {
            // nothing that far
            return None;
        }
        self.iter.nth(n)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.len();
        (len, Some(len))
    }
}
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
fn main() {
    let m: AvlMap<u32, ()> = (0..10).map(|i| (i, ())).collect();
    let mut it = m.iter();
    assert_eq!(it.nth(10), None);
    assert_eq!(it.len(), 0);
    assert_eq!(it.next(), None);
}
'''
