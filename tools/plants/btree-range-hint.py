property = "C07"
needs = "the size hint of a range over a tree whose nodes are at their minimum occupancy"
breaks = "the lower size bound of a range counts one element per child too many"
edits = [("src/btree.rs", """            needs_lf_des: needs_descent,
            needs_rt_des: needs_descent,
        }
    }
}
""", """            needs_lf_des: needs_descent,
            needs_rt_des: needs_descent,
        }
    }

    // The fewest elements this can yield: each child subtree brings at least
    // its own elements and goes with a separator.
    fn min_len(&self, min_occupancy: usize) -> usize
    where
        I: ExactSizeIterator,
        J: ExactSizeIterator,
    {
        self.elems.len().max(self.kids.len()) + min_occupancy * self.kids.len()
    }
}
"""), ("src/btree.rs", """impl<'a, K, V, const N: usize> Iterator for Range<'a, K, V, N> {
    type Item = (&'a K, &'a V);

    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next().map(|(ref k, ref v)| (k, v))
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let lb = self
            .iter
            .work
            .iter()
            .map(|erg| erg.elems.len() + N * erg.kids.len())
            .sum();
""", """impl<'a, K, V, const N: usize> Iterator for Range<'a, K, V, N> {
    type Item = (&'a K, &'a V);

    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next().map(|(ref k, ref v)| (k, v))
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let lb = self.iter.work.iter().map(|erg| erg.min_len(N)).sum();
""")]
demo = r'''
use lazy_clone_collections::BTreeMap;
fn main() {
    for n in [20u32, 60, 100, 400] {
        let m: BTreeMap<u32, u32> = (0..n).map(|i| (i, i)).collect();
        for lo in 0..n {
            for hi in [n / 2, n] {
                if hi < lo { continue; }
                let mut it = m.range(lo..hi);
                let mut left = (hi - lo) as usize;
                loop {
                    let (l, h) = it.size_hint();
                    assert!(l <= left && left <= h.unwrap(), "{n} {lo}..{hi}: {left} not in {l}..={h:?}");
                    if it.next().is_none() { break; }
                    left -= 1;
                }
            }
        }
    }
}
'''
