property = "C13"
needs = "a data format that announces a size and fails in the second half of the entries"
breaks = "an error in the right half of the entries is taken for an early end, so a truncated map is returned instead of the error"
edits = [("src/lib.rs", """                        Err(StitchErr::TooFewElems(None)) => {
                            Err(StitchErr::TooFewElems(Some(lhs)))
                        }

                        Err(StitchErr::TooFewElems(Some(rhs))) => Err(
                            StitchErr::TooFewElems(Some(MAP::stitch(lhs, rhs))),
                        ),

                        e @ Err(StitchErr::Other(_)) => e,
""", """                        Err(StitchErr::TooFewElems(Some(rhs))) => Err(
                            StitchErr::TooFewElems(Some(MAP::stitch(lhs, rhs))),
                        ),

                        // nothing to stitch
                        Err(_) => Err(StitchErr::TooFewElems(Some(lhs))),
""")]
features = '"serde"'
deps = 'serde = "1"'
demo = r'''
use lazy_clone_collections::{AvlMap, BTreeMap};
use serde::de::{value::Error, value::MapAccessDeserializer, DeserializeSeed, Error as _, IntoDeserializer, MapAccess};
use serde::Deserialize;
struct A { i: u32, n: u32, bad: u32 }
impl<'de> MapAccess<'de> for A {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        if self.i == self.bad { return Err(Error::custom("bad")); }
        if self.i == self.n { return Ok(None); }
        self.i += 1;
        s.deserialize(self.i.into_deserializer()).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Error> { s.deserialize(self.i.into_deserializer()) }
    fn size_hint(&self) -> Option<usize> { Some((self.n - self.i) as usize) }
}
fn main() {
    for n in 1..80 {
        for bad in 0..n {
            assert!(AvlMap::<u32, u32>::deserialize(MapAccessDeserializer::new(A { i: 0, n, bad })).is_err());
            assert!(BTreeMap::<u32, u32>::deserialize(MapAccessDeserializer::new(A { i: 0, n, bad })).is_err());
        }
    }
}
'''
