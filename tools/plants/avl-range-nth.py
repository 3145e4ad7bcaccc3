property = "C07"
needs = "a range over part of a map, skipped with nth by at least as many elements as the whole map could have left, and then stepped again"
breaks = "nth on a range that knows it cannot go that far returns None without using up the elements, so the next step still yields one"
edits = [("src/avl.rs", """impl<'a, K, V> Iterator for Range<'a, K, V> {
    type Item = (&'a K, &'a V);

    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next()
    }
""", """impl<'a, K, V> Iterator for Range<'a, K, V> {
    type Item = (&'a K, &'a V);

    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next()
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.iter.len() {
            return None; // there are not that many in the whole map
        }
        (0..n).try_for_each(|_| self.iter.next().map(|_| ()))?;
        self.iter.next()
    }
""")]
demo = r'''
use lazy_clone_collections::AvlMap;
fn main() {
    let m: AvlMap<u32, u32> = (0..50).map(|i| (i, i)).collect();
    let mut r = m.range(10..20);
    assert_eq!(r.nth(60), None);
    assert_eq!(r.next(), None);
}
'''
