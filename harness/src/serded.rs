//! Serialization monitors: a recording serializer, a deserializer that announces any size it likes, hands out entries in any order
//! and fails where it is told to, and a JSON round trip.
use crate::api::{Avl, BTree};
use crate::rng::{mix, Rng};
use crate::run::{doing, label, CaseOut, Stats, Viol};
use crate::tok::{self, KeyT, ValT};
use crate::watch::*;
use crate::{counting, fail};
use lazy_clone_collections as lcc;
use lcc::{AvlSet, Map as LMap, Set as LSet};
use serde::de::{DeserializeOwned, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeMap, SerializeStruct};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap as Std;
use std::fmt;

const P: &str = "C13";
type BSet<T, const N: usize> = lcc::btree::btree_set::BTreeSet<T, N>;

macro_rules! tok_serde {
    ($($K:ident),*; $($V:ident),*) => {
        $(impl Serialize for tok::$K {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(self.bits()) }
        }
        impl<'de> Deserialize<'de> for tok::$K {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let b = u32::deserialize(d)?;
                Ok(Self::mk(b >> tok::TAG_BITS, b & ((1 << tok::TAG_BITS) - 1)))
            }
        })*
        $(impl Serialize for tok::$V {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u64(self.get()) }
        }
        impl<'de> Deserialize<'de> for tok::$V {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Self::mk(u64::deserialize(d)?)) }
        })*
    };
}
tok_serde!(SKey, BKey; SVal, BVal);

// ---------------------------------------------------------------- a data format of our own
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    U(u64),
    Unit,
    Str(String),
    Map { announced: Option<usize>, ended: bool, entries: Vec<(Tree, Tree)> },
    Struct { name: &'static str, announced: usize, fields: Vec<(&'static str, Tree)> },
    Seq(Vec<Tree>),
}
#[derive(Debug, PartialEq, Clone)]
pub struct Er(pub String);
impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Er {}
impl serde::ser::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Er {
        Er(m.to_string())
    }
}
impl serde::de::Error for Er {
    fn custom<T: fmt::Display>(m: T) -> Er {
        Er(m.to_string())
    }
}

/// fails after so many serialized leaves
pub struct Rec<'a>(&'a std::cell::Cell<Option<usize>>);
impl<'a> Rec<'a> {
    fn leaf(&self, t: Tree) -> Result<Tree, Er> {
        match self.0.get() {
            Some(0) => return Err(Er("sink full".into())),
            Some(n) => self.0.set(Some(n - 1)),
            None => (),
        }
        Ok(t)
    }
}
pub struct RecMap<'a> {
    c: &'a std::cell::Cell<Option<usize>>,
    announced: Option<usize>,
    key: Option<Tree>,
    entries: Vec<(Tree, Tree)>,
}
impl<'a> SerializeMap for RecMap<'a> {
    type Ok = Tree;
    type Error = Er;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Er> {
        self.key = Some(k.serialize(Rec(self.c))?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        let k = self.key.take().ok_or(Er("value without key".into()))?;
        self.entries.push((k, v.serialize(Rec(self.c))?));
        Ok(())
    }
    fn end(self) -> Result<Tree, Er> {
        Ok(Tree::Map { announced: self.announced, ended: true, entries: self.entries })
    }
}
pub struct RecStruct<'a> {
    c: &'a std::cell::Cell<Option<usize>>,
    name: &'static str,
    announced: usize,
    fields: Vec<(&'static str, Tree)>,
}
impl<'a> SerializeStruct for RecStruct<'a> {
    type Ok = Tree;
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Er> {
        self.fields.push((k, v.serialize(Rec(self.c))?));
        Ok(())
    }
    fn end(self) -> Result<Tree, Er> {
        Ok(Tree::Struct { name: self.name, announced: self.announced, fields: self.fields })
    }
}
pub struct RecSeq<'a> {
    c: &'a std::cell::Cell<Option<usize>>,
    v: Vec<Tree>,
}
impl<'a> serde::ser::SerializeSeq for RecSeq<'a> {
    type Ok = Tree;
    type Error = Er;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        self.v.push(v.serialize(Rec(self.c))?);
        Ok(())
    }
    fn end(self) -> Result<Tree, Er> {
        Ok(Tree::Seq(self.v))
    }
}
macro_rules! no {
    ($($f:ident($($t:ty),*)),* $(,)?) => { $(fn $f(self, $(_: $t),*) -> Result<Tree, Er> { Err(Er(stringify!($f).into())) })* };
}
impl<'a> Serializer for Rec<'a> {
    type Ok = Tree;
    type Error = Er;
    type SerializeSeq = RecSeq<'a>;
    type SerializeTuple = Impossible<Tree, Er>;
    type SerializeTupleStruct = Impossible<Tree, Er>;
    type SerializeTupleVariant = Impossible<Tree, Er>;
    type SerializeMap = RecMap<'a>;
    type SerializeStruct = RecStruct<'a>;
    type SerializeStructVariant = Impossible<Tree, Er>;
    fn serialize_u32(self, v: u32) -> Result<Tree, Er> {
        self.leaf(Tree::U(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Tree, Er> {
        self.leaf(Tree::U(v))
    }
    fn serialize_unit(self) -> Result<Tree, Er> {
        self.leaf(Tree::Unit)
    }
    fn serialize_str(self, s: &str) -> Result<Tree, Er> {
        self.leaf(Tree::Str(s.into()))
    }
    no!(
        serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8),
        serialize_u16(u16), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_bytes(&[u8]),
        serialize_none(), serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str),
    );
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tree, Er> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Tree, Er> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tree, Er> {
        Err(Er("variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<RecSeq<'a>, Er> {
        Ok(RecSeq { c: self.0, v: vec![] })
    }
    fn serialize_tuple(self, _: usize) -> Result<Impossible<Tree, Er>, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<Tree, Er>, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Tree, Er>, Er> {
        Err(Er("tuple".into()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<RecMap<'a>, Er> {
        Ok(RecMap { c: self.0, announced: n, key: None, entries: vec![] })
    }
    fn serialize_struct(self, name: &'static str, n: usize) -> Result<RecStruct<'a>, Er> {
        Ok(RecStruct { c: self.0, name, announced: n, fields: vec![] })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Tree, Er>, Er> {
        Err(Er("variant".into()))
    }
}

/// How the source behaves.
#[derive(Clone, Copy, Debug)]
pub struct Src {
    pub hint: Option<usize>,
    /// the announced size goes down as entries are handed out
    pub counts_down: bool,
    /// the source fails at this event (each key and each value is one, so is each end)
    pub fail_at: Option<usize>,
    pub structs_as_seq: bool,
}
#[derive(Clone, Copy)]
struct De<'t> {
    t: &'t Tree,
    s: Src,
    ev: &'t std::cell::Cell<usize>,
}
impl De<'_> {
    fn event(&self) -> Result<(), Er> {
        let e = self.ev.get();
        self.ev.set(e + 1);
        if self.s.fail_at == Some(e) {
            return Err(Er(format!("source failed at event {e}")));
        }
        Ok(())
    }
}
struct Acc<'t> {
    d: De<'t>,
    entries: std::slice::Iter<'t, (Tree, Tree)>,
    val: Option<&'t Tree>,
    given: usize,
}
impl<'de, 't> MapAccess<'de> for Acc<'t> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Er> {
        self.d.event()?;
        match self.entries.next() {
            Some((k, v)) => {
                self.val = Some(v);
                self.given += 1;
                s.deserialize(De { t: k, ..self.d }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Er> {
        self.d.event()?;
        let v = self.val.take().ok_or(Er("value asked for without a key".into()))?;
        s.deserialize(De { t: v, ..self.d })
    }
    fn size_hint(&self) -> Option<usize> {
        let h = self.d.s.hint?;
        Some(if self.d.s.counts_down { h.saturating_sub(self.given) } else { h })
    }
}
struct Fields<'t> {
    d: De<'t>,
    f: std::slice::Iter<'t, (&'static str, Tree)>,
    val: Option<&'t Tree>,
}
impl<'de, 't> MapAccess<'de> for Fields<'t> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Er> {
        match self.f.next() {
            Some((k, v)) => {
                self.val = Some(v);
                s.deserialize(IntoDeserializer::<Er>::into_deserializer(*k)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Er> {
        s.deserialize(De { t: self.val.take().ok_or(Er("value asked for without a key".into()))?, ..self.d })
    }
}
struct FieldSeq<'t> {
    d: De<'t>,
    f: std::slice::Iter<'t, (&'static str, Tree)>,
}
impl<'de, 't> SeqAccess<'de> for FieldSeq<'t> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        match self.f.next() {
            Some((_, v)) => s.deserialize(De { t: v, ..self.d }).map(Some),
            None => Ok(None),
        }
    }
}
struct Elems<'t> {
    d: De<'t>,
    f: std::slice::Iter<'t, Tree>,
}
impl<'de, 't> SeqAccess<'de> for Elems<'t> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        self.d.event()?;
        match self.f.next() {
            Some(v) => s.deserialize(De { t: v, ..self.d }).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.d.s.hint
    }
}
impl<'de, 't> Deserializer<'de> for De<'t> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self.t {
            Tree::U(x) => v.visit_u64(*x),
            Tree::Unit => v.visit_unit(),
            Tree::Str(s) => v.visit_str(s),
            Tree::Map { entries, .. } => v.visit_map(Acc { d: self, entries: entries.iter(), val: None, given: 0 }),
            Tree::Struct { fields, .. } if self.s.structs_as_seq => v.visit_seq(FieldSeq { d: self, f: fields.iter() }),
            Tree::Struct { fields, .. } => v.visit_map(Fields { d: self, f: fields.iter(), val: None }),
            Tree::Seq(e) => v.visit_seq(Elems { d: self, f: e.iter() }),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct
        seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

// ---------------------------------------------------------------- what is (de)serialized
/// (key, value); sets have value 0
type Kv = (u32, u64);
trait Subj: Serialize + DeserializeOwned + Sized + Clone + PartialEq {
    const SET: bool;
    fn name() -> String;
    fn empty() -> Self;
    fn put(&mut self, kv: Kv);
    fn del(&mut self, k: u32);
    fn list(&self) -> Vec<Kv>;
    fn chk(&self) -> Result<(), String>;
    fn size(&self) -> usize;
    fn live() -> (usize, usize) {
        tok::live()
    }
}
macro_rules! subj_map {
    ($T:ty, [$($g:tt)*], $name:expr) => {
        impl<K: KeyT + Serialize + DeserializeOwned, V: ValT + Serialize + DeserializeOwned, $($g)*> Subj for $T {
            const SET: bool = false;
            fn name() -> String { $name }
            fn empty() -> Self { Self::new() }
            fn put(&mut self, (k, v): Kv) { self.insert(K::mk(k, 0), V::mk(v)); }
            fn del(&mut self, k: u32) { self.remove(&tok::Qk::of(k)); }
            fn list(&self) -> Vec<Kv> { self.iter().map(|(k, v)| (k.key(), v.get())).collect() }
            fn chk(&self) -> Result<(), String> { LMap::check(self) }
            fn size(&self) -> usize { self.len() }
        }
    };
}
subj_map!(Avl<K, V>, [], format!("AvlMap<{},{}>", K::NAME, V::NAME));
subj_map!(BTree<K, V, N>, [const N: usize], format!("BTreeMap<{},{},{N}>", K::NAME, V::NAME));
macro_rules! subj_set {
    ($T:ty, [$($g:tt)*], $name:expr) => {
        impl<K: KeyT + Serialize + DeserializeOwned, $($g)*> Subj for $T {
            const SET: bool = true;
            fn name() -> String { $name }
            fn empty() -> Self { Self::new() }
            fn put(&mut self, (k, _): Kv) { self.insert(K::mk(k, 0)); }
            fn del(&mut self, k: u32) { self.remove(&tok::Qk::of(k)); }
            fn list(&self) -> Vec<Kv> { self.iter().map(|k| (k.key(), 0)).collect() }
            fn chk(&self) -> Result<(), String> { LSet::check(self) }
            fn size(&self) -> usize { self.len() }
        }
    };
}
subj_set!(AvlSet<K>, [], format!("AvlSet<{}>", K::NAME));
subj_set!(BSet<K, N>, [const N: usize], format!("BTreeSet<{},{N}>", K::NAME));

fn none() -> std::cell::Cell<Option<usize>> {
    std::cell::Cell::new(None)
}
fn find_map(t: &Tree) -> Option<(&Option<usize>, &Vec<(Tree, Tree)>)> {
    match t {
        Tree::Map { announced, entries, .. } => Some((announced, entries)),
        Tree::Struct { fields, .. } => fields.iter().find_map(|(_, t)| find_map(t)),
        _ => None,
    }
}
fn with_entries(t: &Tree, e: &[(Tree, Tree)]) -> Tree {
    match t {
        Tree::Map { announced, ended, .. } => Tree::Map { announced: *announced, ended: *ended, entries: e.to_vec() },
        Tree::Struct { name, announced, fields } => Tree::Struct {
            name,
            announced: *announced,
            fields: fields.iter().map(|(n, t)| (*n, with_entries(t, e))).collect(),
        },
        t => t.clone(),
    }
}
/// the recorded form of a sequence of entries for this type; None if the type records itself in a way we do not take apart
fn template<S: Subj>() -> Option<Tree> {
    let mut s = S::empty();
    s.put((1, 0));
    let t = s.serialize(Rec(&none())).ok()?;
    find_map(&t)?;
    Some(t)
}
fn entries<S: Subj>(kv: &[Kv]) -> Vec<(Tree, Tree)> {
    kv.iter()
        .map(|(k, v)| (Tree::U((*k as u64) << tok::TAG_BITS), if S::SET { Tree::Unit } else { Tree::U(*v) }))
        .collect()
}

fn show(kv: &[Kv]) -> String {
    let v: Vec<u32> = kv.iter().take(40).map(|x| x.0).collect();
    format!("{} entries, keys {v:?}{}", kv.len(), if kv.len() > 40 { "..." } else { "" })
}

/// deserialize exactly this, compare with inserting one by one
fn feed<S: Subj>(tmpl: &Tree, kv: &[Kv], s: Src, after: bool, rng: &mut Rng, st: &mut Stats) -> R {
    label(P);
    let t = with_entries(tmpl, &entries::<S>(kv));
    let ev = std::cell::Cell::new(0);
    let (k0, v0) = S::live();
    let b0 = counting::bytes();
    let what = || format!("{}: source {s:?} of {}", S::name(), show(kv));
    doing(&what);
    let r = S::deserialize(De { t: &t, s, ev: &ev });
    let used = counting::bytes() - b0;
    st.add("deserializations", 1);
    st.add("source_events", ev.get() as u64);
    if used > (4 << 20) + 20_000 * kv.len() as u64 {
        fail!(P, "{}: allocated {used} bytes", what());
    }
    let mut want: Std<u32, u64> = Std::new();
    for (k, v) in kv {
        want.insert(*k, if S::SET { 0 } else { *v });
    }
    let reaches_failure = s.fail_at.is_some_and(|f| ev.get() > f);
    match r {
        Err(e) => {
            if !reaches_failure {
                fail!(P, "{}: error {e:?} although the source did not fail", what());
            }
            if e.0 != format!("source failed at event {}", s.fail_at.unwrap()) {
                fail!(P, "{}: the source's error came out as {e:?}", what());
            }
            st.add("source_errors_returned", 1);
        }
        Ok(mut m) => {
            if reaches_failure {
                fail!(P, "{}: the source failed but a collection of {} entries was returned", what(), m.size());
            }
            let got = m.list();
            let w: Vec<Kv> = want.iter().map(|(k, v)| (*k, *v)).collect();
            if got != w {
                let i = got.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
                fail!(P, "{}: {} entries, expected {}; at {i}: {:?}, expected {:?}", what(), got.len(), w.len(), got.get(i), w.get(i));
            }
            if m.size() != w.len() {
                fail!(P, "{}: len() = {}, expected {}", what(), m.size(), w.len());
            }
            if let Err(e) = m.chk() {
                fail!(P, "{}: ill-formed collection: {e}", what());
            }
            let (k, v) = S::live();
            if k - k0 != w.len() || (!S::SET && v - v0 != w.len()) {
                fail!(P, "{}: {} keys and {} values alive for {} entries", what(), k - k0, v - v0, w.len());
            }
            if after {
                // it is usable like any other
                let mut one = S::empty();
                w.iter().for_each(|x| one.put(*x));
                if one != m {
                    fail!(P, "{}: not equal to the collection built by insertion", what());
                }
                drop(one);
                let keys: Vec<u32> = w.iter().map(|x| x.0).collect();
                for _ in 0..8 {
                    if rng.chance(1, 2) && !keys.is_empty() {
                        let k = *rng.pick(&keys);
                        m.del(k);
                        want.remove(&k);
                    } else {
                        let k = rng.below(2000) as u32;
                        m.put((k, 5));
                        want.insert(k, if S::SET { 0 } else { 5 });
                    }
                }
                if m.list() != want.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>() || m.chk().is_err() {
                    fail!(P, "{}: misbehaves in later use", what());
                }
            }
        }
    }
    if S::live() != (k0, v0) {
        let (k, v) = S::live();
        fail!(P, "{}: {} keys and {} values leaked", what(), k as i64 - k0 as i64, v as i64 - v0 as i64);
    }
    let e = tok::take_errs();
    if let Some(e) = e.first() {
        fail!(P, "{}: {e}", what());
    }
    Ok(())
}

/// what a collection emits, and that it comes back
fn emit<S: Subj>(rng: &mut Rng, n: usize, st: &mut Stats) -> R {
    label(P);
    let mut m = S::empty();
    let mut want: Std<u32, u64> = Std::new();
    let uni = (2 * n).max(4);
    for i in 0..n + n / 2 {
        let k = rng.below(uni) as u32;
        if i % 3 == 2 {
            m.del(k);
            want.remove(&k);
        } else {
            m.put((k, i as u64));
            want.insert(k, if S::SET { 0 } else { i as u64 });
        }
    }
    let shared = rng.chance(1, 2).then(|| m.clone());
    let name = S::name();
    doing(|| format!("{name}: serialize {} entries", want.len()));
    let t = match m.serialize(Rec(&none())) {
        Ok(t) => t,
        Err(e) => fail!(P, "{name}: serializing {} entries: {e:?}", want.len()),
    };
    st.add("serializations", 1);
    let w: Vec<Kv> = want.iter().map(|(k, v)| (*k, *v)).collect();
    if let Tree::Map { announced, entries: e, .. } = &t {
        if *announced != Some(w.len()) {
            fail!(P, "{name}: announced {announced:?} entries, holds {}", w.len());
        }
        let got: Vec<Kv> = e
            .iter()
            .map(|(k, v)| match (k, v) {
                (Tree::U(k), Tree::U(v)) => ((k >> tok::TAG_BITS) as u32, *v),
                _ => (u32::MAX, 0),
            })
            .collect();
        if got != w {
            fail!(P, "{name}: emitted {}, expected {}", show(&got), show(&w));
        }
    } else if !S::SET {
        fail!(P, "{name}: not serialized as a map");
    }
    // round trips
    for structs_as_seq in [false, true] {
        for hint in [None, Some(w.len())] {
            let s = Src { hint, counts_down: rng.chance(1, 2), fail_at: None, structs_as_seq };
            let ev = std::cell::Cell::new(0);
            match S::deserialize(De { t: &t, s, ev: &ev }) {
                Ok(m2) => {
                    if m2 != m || m2.list() != w || m2.size() != w.len() {
                        fail!(P, "{name}: {} came back as {} ({s:?})", show(&w), show(&m2.list()));
                    }
                    if let Err(e) = m2.chk() {
                        fail!(P, "{name}: came back ill-formed: {e} ({s:?})");
                    }
                }
                Err(e) => fail!(P, "{name}: {} does not come back: {e:?} ({s:?})", show(&w)),
            }
            st.add("round_trips", 1);
        }
    }
    let j = match serde_json::to_string(&m) {
        Ok(j) => j,
        Err(e) => fail!(P, "{name}: to JSON: {e}"),
    };
    for via_value in [false, true] {
        let r = if via_value { serde_json::from_str(&j).and_then(serde_json::from_value::<S>) } else { serde_json::from_str::<S>(&j) };
        match r {
            Ok(m2) => {
                if m2 != m || m2.list() != w || m2.size() != w.len() {
                    fail!(P, "{name}: {} came back from JSON as {} (through a Value: {via_value})", show(&w), show(&m2.list()));
                }
                if let Err(e) = m2.chk() {
                    fail!(P, "{name}: came back from JSON ill-formed: {e}");
                }
            }
            Err(e) => fail!(P, "{name}: {} does not come back from JSON: {e}", show(&w)),
        }
        st.add("round_trips", 1);
    }
    // a sink that fails half way
    let c = std::cell::Cell::new(Some(rng.below(2 * w.len() + 2)));
    let cut = c.get().unwrap();
    match m.serialize(Rec(&c)) {
        Ok(_) if cut < 2 * w.len() => fail!(P, "{name}: the sink failed after {cut} items but serialization succeeded"),
        Err(e) if e.0 != "sink full" => fail!(P, "{name}: the sink's error came out as {e:?}"),
        _ => (),
    }
    // truncated text: an error, nothing left behind
    let l0 = S::live();
    if j.len() > 2 {
        let cut = rng.below(j.len() - 1) + 1;
        if let Some(part) = j.get(..cut) {
            if serde_json::from_str::<S>(part).is_ok() {
                fail!(P, "{name}: truncated JSON accepted: {part}");
            }
        }
    }
    // text of another kind: the format's error, no panic
    for (txt, bad) in [("3", true), ("\"x\"", true), ("null", true), ("true", true), ("[1,2]", !S::SET), ("[{}]", !S::SET), ("{\"a\":{\"b\":1}}", true)] {
        if serde_json::from_str::<S>(txt).is_ok() && bad {
            fail!(P, "{name}: {txt} accepted");
        }
    }
    if S::live() != l0 {
        fail!(P, "{name}: elements leaked by a failed JSON deserialization");
    }
    if m.list() != w || shared.is_some_and(|c| c != m) {
        fail!(P, "{name}: serializing changed the collection");
    }
    drop(m);
    if S::live() != (0, 0) {
        fail!(P, "{name}: {:?} elements leaked by round trips", S::live());
    }
    Ok(())
}

fn sequence(rng: &mut Rng, n: usize) -> Vec<Kv> {
    let uni = *rng.pick(&[n.max(1), 2 * n + 2, 20 * n + 20]);
    let mut ks: Vec<u32> = match rng.below(8) {
        0..=2 => {
            let mut all: Vec<u32> = (0..uni as u32).collect();
            rng.shuffle(&mut all);
            all.truncate(n);
            all.sort();
            all
        }
        3 => (0..n).map(|_| rng.below(uni) as u32).collect(),
        4 => {
            let mut v: Vec<u32> = (0..n).map(|_| rng.below(uni) as u32).collect();
            v.sort();
            v
        }
        5 => (0..n as u32).rev().collect(),
        6 => {
            // sorted but for one or two places
            let mut v: Vec<u32> = (0..n as u32).map(|x| 2 * x).collect();
            for _ in 0..rng.range(1, 2) {
                if n > 0 {
                    let i = rng.below(n);
                    v[i] = match rng.below(4) {
                        0 => v[n - 1],
                        1 => v[0],
                        2 => v[i.saturating_sub(1)],
                        _ => rng.below(2 * n) as u32,
                    };
                }
            }
            v
        }
        _ => {
            let mut v: Vec<u32> = (0..n as u32).collect();
            if n > 1 {
                let (i, j) = (rng.below(n), rng.below(n));
                v.swap(i, j);
            }
            v
        }
    };
    ks.truncate(n);
    ks.into_iter().enumerate().map(|(i, k)| (k, i as u64 + 1)).collect()
}
fn hint(rng: &mut Rng, n: usize) -> Option<usize> {
    match rng.below(14) {
        0 => None,
        1 | 2 => Some(n),
        3 => Some(rng.below(n + 1)),
        4 => Some(n + 1),
        5 => Some(n.saturating_sub(1)),
        6 => Some(n + rng.below(n + 2)),
        7 => Some(0),
        8 => Some(2 * n + rng.below(4 * n + 5)),
        9 => Some(usize::MAX - rng.below(3)),
        10 => Some((usize::MAX >> rng.below(40)).wrapping_sub(rng.below(3))),
        11 => Some(1usize << rng.below(64)),
        12 => Some(n * rng.range(2, 50) + rng.below(3)),
        _ => Some(rng.below(300)),
    }
}

fn random<S: Subj>(rng: &mut Rng, st: &mut Stats) -> R {
    let n = match rng.below(10) {
        0..=3 => rng.below(12),
        4..=7 => rng.below(80),
        8 => rng.below(400),
        _ if rng.chance(1, 20) => rng.range(1500, 20_000),
        _ => rng.below(1500),
    };
    if rng.chance(1, 6) {
        return emit::<S>(rng, n.min(300), st);
    }
    let Some(t) = template::<S>() else {
        st.add("types_recording_themselves_otherwise", 1);
        return emit::<S>(rng, n.min(300), st);
    };
    let kv = sequence(rng, n);
    let fail_at = rng.chance(1, 3).then(|| rng.below(2 * kv.len() + 2));
    let s = Src { hint: hint(rng, kv.len()), counts_down: rng.chance(1, 2), fail_at, structs_as_seq: rng.chance(1, 3) };
    feed::<S>(&t, &kv, s, true, rng, st)
}

/// every length against every announced size, sorted and nearly sorted
fn grid<S: Subj>(n: usize, max: usize, rng: &mut Rng, st: &mut Stats) -> R {
    let Some(t) = template::<S>() else { return Ok(()) };
    let sorted: Vec<Kv> = (0..n as u32).map(|k| (k, k as u64)).collect();
    let mut bent = sorted.clone();
    if n > 1 {
        let (i, j) = (rng.below(n), rng.below(n));
        bent[i].0 = bent[j].0;
    }
    for h in 0..=max {
        for kv in [&sorted, &bent] {
            let s = Src { hint: Some(h), counts_down: h % 2 == 0, fail_at: None, structs_as_seq: false };
            feed::<S>(&t, kv, s, false, rng, st)?;
        }
    }
    st.add("announced_sizes_enumerated", max as u64 + 1);
    Ok(())
}

/// the source fails at every single event in turn
fn failures<S: Subj>(n: usize, rng: &mut Rng, st: &mut Stats) -> R {
    let Some(t) = template::<S>() else { return Ok(()) };
    let kv = sequence(rng, n);
    for f in 0..=2 * kv.len() {
        let s = Src { hint: hint(rng, kv.len()), counts_down: true, fail_at: Some(f), structs_as_seq: false };
        feed::<S>(&t, &kv, s, false, rng, st)?;
    }
    Ok(())
}

fn go<S: Subj>(idx: u64, rng: &mut Rng, st: &mut Stats, thorough: bool) -> R {
    let i = idx / KINDS;
    let lens = if thorough { 260 } else { 90 };
    if i <= lens {
        return grid::<S>(i as usize, if thorough { 300 } else { 110 }, rng, st);
    }
    if rng.chance(1, 20) {
        let n = rng.below(40);
        return failures::<S>(n, rng, st);
    }
    for _ in 0..8 {
        random::<S>(rng, st)?;
    }
    Ok(())
}

const KINDS: u64 = 11;
pub fn case(seed: u64, idx: u64, thorough: bool) -> CaseOut {
    use tok::{BKey, BVal, SKey, SVal};
    tok::reset();
    let mut rng = Rng::derive(seed ^ 0x5e4d, idx);
    let mut st = Stats::default();
    let (r, s) = (&mut rng, &mut st);
    let f = |r: &mut Rng, s: &mut Stats| match idx % KINDS {
        0 => go::<Avl<SKey, SVal>>(idx, r, s, thorough),
        1 => go::<BTree<SKey, SVal, 1>>(idx, r, s, thorough),
        2 => go::<BTree<BKey, BVal, 2>>(idx, r, s, thorough),
        3 => go::<BTree<SKey, BVal, 3>>(idx, r, s, thorough),
        4 => go::<BTree<SKey, SVal, 5>>(idx, r, s, thorough),
        5 => go::<BTree<BKey, SVal, 8>>(idx, r, s, thorough),
        6 => go::<AvlSet<BKey>>(idx, r, s, thorough),
        7 => go::<BSet<SKey, 1>>(idx, r, s, thorough),
        8 => go::<BSet<BKey, 2>>(idx, r, s, thorough),
        9 => go::<BSet<SKey, 5>>(idx, r, s, thorough),
        _ => go::<BTree<SKey, SVal, 4>>(idx, r, s, thorough),
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(r, s)));
    let mut out = CaseOut::default();
    match res {
        Ok(Ok(())) => (),
        Ok(Err(v)) => out.viols.push(v),
        Err(_) => out.viols.push(Viol {
            prop: P,
            msg: format!("panic: {} (run the case with --only to see the source)", crate::run::panic_msg()),
        }),
    }
    st.add("elements_tracked", tok::totals().created);
    out.sig = mix(rng.u64() ^ mix(idx));
    out.nontrivial = true;
    out.states = vec![out.sig];
    out.stats = st;
    out
}
