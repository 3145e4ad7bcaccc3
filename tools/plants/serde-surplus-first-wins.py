property = "C13"
needs = "a deserializer whose size hint is too small, and a key that appears again among the entries beyond the hint"
breaks = "of two entries with the same key the first wins, but only when the size hint was too small"
edits = [("src/lib.rs", """            while let Some((key, value)) = access.next_entry()? {
                map.insert_(key, value);
            }

            Ok(map)
""", """            // whatever the hint did not announce
            while let Some((key, value)) = access.next_entry()? {
                match map.get_mut_(&key) {
                    Some(_) if access.size_hint().is_some() => (),
                    _ => {
                        map.insert_(key, value);
                    }
                }
            }

            Ok(map)
""")]
features = '"serde"'
deps = 'serde = "1"'
demo = r'''
use lazy_clone_collections::{AvlMap, BTreeMap};
use serde::de::value::{Error, MapAccessDeserializer, U32Deserializer};
use serde::de::{Deserialize, DeserializeSeed, IntoDeserializer, MapAccess};
struct A { at: usize, hint: usize, items: Vec<(u32, u32)> }
impl<'de> MapAccess<'de> for A {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        match self.items.get(self.at) {
            None => Ok(None),
            Some(x) => { let d: U32Deserializer<Error> = x.0.into_deserializer(); s.deserialize(d).map(Some) }
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Error> {
        let d: U32Deserializer<Error> = self.items[self.at].1.into_deserializer();
        self.at += 1;
        s.deserialize(d)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.hint.saturating_sub(self.at)) }
}
fn main() {
    let mut items: Vec<(u32, u32)> = (0..20).map(|i| (i, i)).collect();
    items.push((7, 70));
    let acc = || MapAccessDeserializer::new(A { at: 0, hint: 20, items: items.clone() });
    let a = AvlMap::<u32, u32>::deserialize(acc()).unwrap();
    assert_eq!((a.len(), a.get(&7)), (20, Some(&70)));
    let b = BTreeMap::<u32, u32>::deserialize(acc()).unwrap();
    assert_eq!((b.len(), b.get(&7)), (20, Some(&70)));
}
'''
