property = "C13"
needs = "deserializing sorted entries with a duplicated key that falls on the boundary between two nodes, with the size announced"
breaks = "the check of a B-tree built by halves accepts a separator equal to the greatest key below it, so a duplicate survives"
edits = [("src/btree.rs", """            if k >= self.key(0) {
                return Err(Unsorted);
            }
""", """            if k > self.key(0) {
                return Err(Unsorted);
            }
""")]
features = '"serde"'
deps = 'serde_json = "1"\nserde = "1"'
demo = r'''
use lazy_clone_collections::BTreeMap;
use serde::de::value::{Error, MapDeserializer};
use serde::Deserialize;
fn main() {
    for n in 2..60u32 {
        for dup in 0..n {
            let keys: Vec<u32> = (0..n).flat_map(|k| if k == dup { vec![k, k] } else { vec![k] }).collect();
            let de = MapDeserializer::<_, Error>::new(keys.into_iter().enumerate().map(|(i, k)| (k, i)));
            let m = BTreeMap::<u32, usize>::deserialize(de).unwrap();
            assert_eq!(m.len(), n as usize);
            assert_eq!(m.iter().map(|e| *e.0).collect::<Vec<_>>(), (0..n).collect::<Vec<_>>());
        }
    }
}
'''
