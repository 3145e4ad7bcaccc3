//! One interface over all collections, so that the workloads and monitors are written once.
use crate::tok::{KeyT, Qk, ValT};
use lazy_clone_collections as lcc;
use std::any::Any;
use std::ops::{Bound, RangeBounds};

/// An iterator under observation.
pub trait It<T> {
    fn next(&mut self) -> Option<T>;
    fn next_back(&mut self) -> Option<T>;
    fn nth(&mut self, n: usize) -> Option<T>;
    fn nth_back(&mut self, n: usize) -> Option<T>;
    fn double_ended(&self) -> bool;
    fn exact_len(&self) -> Option<usize>;
    fn hint(&self) -> (usize, Option<usize>);
    /// consume what is left by internal iteration, from the front or the back
    fn fold_rest(self: Box<Self>, back: bool) -> Vec<T>;
    /// consume what is left by some other method of `Iterator` that visits everything in order
    fn feed_rest(self: Box<Self>, way: u8) -> Vec<T>;
    fn count_rest(self: Box<Self>) -> usize;
    fn last_rest(self: Box<Self>) -> Option<T>;
}
pub type DynIt<'a, T> = Box<dyn It<T> + 'a>;

/// double-ended, exact size
pub struct De<I, F>(pub I, pub F);
/// double-ended, size unknown
pub struct Dr<I, F>(pub I, pub F);
/// forward only, exact size
pub struct Fe<I, F>(pub I, pub F);
/// forward only, size unknown
pub struct Fw<I, F>(pub I, pub F);

macro_rules! fwd_methods {
    () => {
        fn next(&mut self) -> Option<T> {
            self.0.next().map(&mut self.1)
        }
        fn nth(&mut self, n: usize) -> Option<T> {
            self.0.nth(n).map(&mut self.1)
        }
        fn hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
        fn feed_rest(self: Box<Self>, way: u8) -> Vec<T> {
            let De2(mut i, mut f) = De2::from_parts(*self);
            let mut v = vec![];
            match way {
                0 => i.for_each(|x| v.push(f(x))),
                1 => drop(i.all(|x| {
                    v.push(f(x));
                    true
                })),
                2 => drop(i.position(|x| {
                    v.push(f(x));
                    false
                })),
                3 => drop(i.find_map(|x| {
                    v.push(f(x));
                    None::<()>
                })),
                4 => v.extend(i.by_ref().map(f)),
                5 => return i.collect::<Vec<_>>().into_iter().map(f).collect(),
                _ => {
                    let (a, b): (Vec<_>, Vec<_>) = i.partition(|_| true);
                    v.extend(a.into_iter().chain(b).map(f))
                }
            }
            v
        }
        fn count_rest(self: Box<Self>) -> usize {
            self.0.count()
        }
        fn last_rest(self: Box<Self>) -> Option<T> {
            let De2(i, f) = De2::from_parts(*self);
            i.last().map(f)
        }
    };
}
macro_rules! back_methods {
    () => {
        fn next_back(&mut self) -> Option<T> {
            self.0.next_back().map(&mut self.1)
        }
        fn nth_back(&mut self, n: usize) -> Option<T> {
            self.0.nth_back(n).map(&mut self.1)
        }
        fn double_ended(&self) -> bool {
            true
        }
        fn fold_rest(self: Box<Self>, back: bool) -> Vec<T> {
            let De2(i, mut f) = De2::from_parts(*self);
            if back {
                i.rfold(Vec::new(), |mut v, x| {
                    v.push(f(x));
                    v
                })
            } else {
                i.fold(Vec::new(), |mut v, x| {
                    v.push(f(x));
                    v
                })
            }
        }
    };
}
macro_rules! noback_methods {
    () => {
        fn next_back(&mut self) -> Option<T> {
            unreachable!()
        }
        fn nth_back(&mut self, _: usize) -> Option<T> {
            unreachable!()
        }
        fn double_ended(&self) -> bool {
            false
        }
        fn fold_rest(self: Box<Self>, _: bool) -> Vec<T> {
            let De2(i, mut f) = De2::from_parts(*self);
            i.fold(Vec::new(), |mut v, x| {
                v.push(f(x));
                v
            })
        }
    };
}
struct De2<I, F>(I, F);
trait Parts<I, F> {
    fn parts(self) -> (I, F);
}
impl<I, F> De2<I, F> {
    fn from_parts<P: Parts<I, F>>(p: P) -> Self {
        let (i, f) = p.parts();
        De2(i, f)
    }
}
macro_rules! parts {
    ($($T:ident),*) => { $( impl<I, F> Parts<I, F> for $T<I, F> { fn parts(self) -> (I, F) { (self.0, self.1) } } )* };
}
parts!(De, Dr, Fe, Fw);

impl<T, I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> T> It<T> for De<I, F> {
    fwd_methods!();
    back_methods!();
    fn exact_len(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
impl<T, I: DoubleEndedIterator, F: FnMut(I::Item) -> T> It<T> for Dr<I, F> {
    fwd_methods!();
    back_methods!();
    fn exact_len(&self) -> Option<usize> {
        None
    }
}
impl<T, I: ExactSizeIterator, F: FnMut(I::Item) -> T> It<T> for Fe<I, F> {
    fwd_methods!();
    noback_methods!();
    fn exact_len(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
impl<T, I: Iterator, F: FnMut(I::Item) -> T> It<T> for Fw<I, F> {
    fwd_methods!();
    noback_methods!();
    fn exact_len(&self) -> Option<usize> {
        None
    }
}

pub type RoItem = (Option<u32>, Option<u64>);
pub type RwItem<'a, V> = (Option<u32>, &'a mut V);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ro {
    Iter,
    RefInto,
    Keys,
    Values,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rw {
    IterMut,
    MutInto,
    ValuesMut,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Own {
    IntoIter,
    IntoKeys,
    IntoValues,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Union,
    Inter,
    Diff,
    SymDiff,
}

pub type Bd = (Bound<u32>, Bound<u32>);

/// bounds over the borrowed key type
pub struct QRange(pub Bound<Qk>, pub Bound<Qk>);
pub fn qbound(b: Bound<u32>) -> Bound<Qk> {
    match b {
        Bound::Included(k) => Bound::Included(Qk::of(k)),
        Bound::Excluded(k) => Bound::Excluded(Qk::of(k)),
        Bound::Unbounded => Bound::Unbounded,
    }
}
pub fn kbound<K: KeyT>(b: Bound<u32>) -> Bound<K> {
    match b {
        Bound::Included(k) => Bound::Included(K::mk(k, 0)),
        Bound::Excluded(k) => Bound::Excluded(K::mk(k, 0)),
        Bound::Unbounded => Bound::Unbounded,
    }
}
impl RangeBounds<Qk> for QRange {
    fn start_bound(&self) -> Bound<&Qk> {
        self.0.as_ref()
    }
    fn end_bound(&self) -> Bound<&Qk> {
        self.1.as_ref()
    }
}

/// What an entry operation reported.
#[derive(Debug, PartialEq, Eq)]
pub struct EntryOut {
    pub key: u32,
    pub modify_calls: Vec<u64>,
    pub default_calls: Vec<Option<u32>>,
    pub value_seen: Option<u64>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EntryOp {
    OrInsert,
    OrInsertWith,
    OrInsertWithKey,
    OrDefault,
    ModifyOnly,
    KeyOnly,
}

pub struct Caps {
    pub full: bool,  // everything but the fixed-node map
    pub avl: bool,   // AVL-only operations
    pub n: usize,    // B-tree occupancy, 0 for AVL
    pub hash: bool,
}

/// A source of elements whose size hint is truthful but seldom exact.
pub struct Hinted<I> {
    it: I,
    how: usize,
}
impl<I: ExactSizeIterator> Hinted<I> {
    pub fn new(it: I, how: usize) -> Self {
        Hinted { it, how: how % 10 }
    }
    /// one whose kind depends on the number of elements
    pub fn auto(it: I) -> Self {
        let n = it.len();
        Hinted { it, how: n % 10 }
    }
}
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len();
        match self.how {
            1 => (0, None),
            3 => (n / 2, None),
            5 => ((n + 1) / 2, Some(n + 3)),
            7 => (n.min(1), Some(2 * n)),
            8 => (0, Some(n)),
            9 => (0, Some(usize::MAX)),
            _ => (n, Some(n)),
        }
    }
}

pub trait DynMap<K: KeyT, V: ValT>: Any {
    fn name(&self) -> String;
    fn caps(&self) -> Caps;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn as_any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;

    fn new_empty(&self) -> Box<dyn DynMap<K, V>>;
    fn clone_box(&self) -> Box<dyn DynMap<K, V>>;
    fn clone_from_dyn(&mut self, o: &dyn DynMap<K, V>);
    fn take_box(&mut self) -> Box<dyn DynMap<K, V>>;
    fn collect_new(&self, kv: Vec<(K, V)>) -> Box<dyn DynMap<K, V>>;
    fn from_arr(&self, kv: [(K, V); 4]) -> Box<dyn DynMap<K, V>>;

    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, k: u32, by_key: bool) -> Option<u64>;
    fn get_mut(&mut self, k: u32, by_key: bool) -> Option<&mut V>;
    fn insert(&mut self, k: K, v: V) -> Option<V>;
    fn remove(&mut self, k: u32, by_key: bool) -> Option<V>;
    fn clear(&mut self);
    fn extend(&mut self, kv: &mut dyn Iterator<Item = (K, V)>);
    fn ro<'a>(&'a self, kind: Ro) -> DynIt<'a, RoItem>;
    fn rw<'a>(&'a mut self, kind: Rw) -> DynIt<'a, RwItem<'a, V>>;
    fn own(self: Box<Self>, kind: Own) -> DynIt<'static, (Option<K>, Option<V>)>;

    // --- not on the fixed-node map
    fn get_kv(&self, k: u32, by_key: bool) -> Option<(u32, u64)>;
    fn contains(&self, k: u32, by_key: bool) -> bool;
    fn first_last(&self, last: bool) -> Option<(u32, u64)>;
    fn pop(&mut self, last: bool) -> Option<(K, V)>;
    fn entry_op(&mut self, k: u32, at: Option<bool>, modify: bool, op: EntryOp, v: u64) -> Option<EntryOut>;
    fn append(&mut self, o: &mut dyn DynMap<K, V>);
    fn split_off(&mut self, k: u32, by_key: bool) -> Box<dyn DynMap<K, V>>;
    fn retain(&mut self, f: &mut dyn FnMut(&K, &mut V) -> bool);
    fn range<'a>(&'a self, b: Bd, by_key: bool) -> DynIt<'a, RoItem>;
    fn range_mut<'a>(&'a mut self, b: Bd, by_key: bool) -> DynIt<'a, RwItem<'a, V>>;
    fn check(&self) -> Result<(), String>;
    fn eq_dyn(&self, o: &dyn DynMap<K, V>) -> bool;
    fn pcmp_dyn(&self, o: &dyn DynMap<K, V>) -> Option<std::cmp::Ordering>;
    fn cmp_dyn(&self, o: &dyn DynMap<K, V>) -> std::cmp::Ordering;
    fn debug(&self) -> String;

    // --- AVL map only
    fn hash64(&self) -> u64;
    fn index(&self, k: u32) -> u64;
    fn remove_entry(&mut self, k: u32) -> Option<(K, V)>;
    fn extend_ref(&mut self, kv: &[(K, V)]);
    fn binary(self: Box<Self>, op: Bin, o: Box<dyn DynMap<K, V>>) -> Box<dyn DynMap<K, V>>;
    fn join(self: Box<Self>, k: K, v: V, o: Box<dyn DynMap<K, V>>) -> Box<dyn DynMap<K, V>>;
    fn for_each(&self, f: &mut dyn FnMut(&K, &V));
    fn for_each_mut(&mut self, f: &mut dyn FnMut(&K, &mut V));
    fn into_vec(self: Box<Self>) -> Vec<(K, V)>;
}

macro_rules! by {
    ($by_key:expr, $K:ty, $k:expr, $s:ident . $m:ident) => {
        if $by_key {
            let kk = <$K>::mk($k, 0);
            $s.$m::<$K>(&kk)
        } else {
            let kk = Qk::of($k);
            $s.$m::<Qk>(&kk)
        }
    };
    ($by_key:expr, $K:ty, $k:expr, $s:ident . $m:ident, $f:expr) => {
        if $by_key {
            let kk = <$K>::mk($k, 0);
            $s.$m::<$K>(&kk).map($f)
        } else {
            let kk = Qk::of($k);
            $s.$m::<Qk>(&kk).map($f)
        }
    };
}

macro_rules! basic {
    () => {
        fn as_any_mut(&mut self) -> &mut dyn Any {
            self
        }
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn into_any(self: Box<Self>) -> Box<dyn Any> {
            self
        }
        fn clone_box(&self) -> Box<dyn DynMap<K, V>> {
            Box::new(self.clone())
        }
        fn clone_from_dyn(&mut self, o: &dyn DynMap<K, V>) {
            self.clone_from(o.as_any().downcast_ref::<Self>().unwrap())
        }
        fn take_box(&mut self) -> Box<dyn DynMap<K, V>> {
            Box::new(std::mem::replace(self, Self::new()))
        }
        fn collect_new(&self, kv: Vec<(K, V)>) -> Box<dyn DynMap<K, V>> {
            Box::new(Hinted::auto(kv.into_iter()).collect::<Self>())
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn is_empty(&self) -> bool {
            self.is_empty()
        }
        fn get(&self, k: u32, by_key: bool) -> Option<u64> {
            by!(by_key, K, k, self.get, |v: &V| v.get())
        }
        fn remove(&mut self, k: u32, by_key: bool) -> Option<V> {
            by!(by_key, K, k, self.remove)
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn extend(&mut self, kv: &mut dyn Iterator<Item = (K, V)>) {
            Extend::<(K, V)>::extend(self, kv)
        }
    };
}

macro_rules! full {
    () => {
        fn new_empty(&self) -> Box<dyn DynMap<K, V>> {
            Box::new(if self.len() % 2 == 0 { Self::new() } else { Self::default() })
        }
        fn get_mut(&mut self, k: u32, by_key: bool) -> Option<&mut V> {
            // now and then through the crate's trait
            if (k as usize ^ self.len()) % 7 == 0 {
                let here = <Self as lcc::Map>::contains_key_::<Qk>(self, &Qk::of(k));
                let r = <Self as lcc::Map>::get_mut_::<Qk>(self, &Qk::of(k));
                assert_eq!(here, r.is_some(), "Map::contains_key_ and Map::get_mut_ disagree");
                r
            } else {
                by!(by_key, K, k, self.get_mut)
            }
        }
        fn insert(&mut self, k: K, v: V) -> Option<V> {
            if (k.key() as usize ^ self.len()) % 7 == 0 {
                <Self as lcc::Map>::insert_(self, k, v)
            } else {
                self.insert(k, v)
            }
        }
        fn from_arr(&self, kv: [(K, V); 4]) -> Box<dyn DynMap<K, V>> {
            Box::new(Self::from(kv))
        }
        fn ro<'a>(&'a self, kind: Ro) -> DynIt<'a, RoItem> {
            match kind {
                Ro::Iter => Box::new(De(self.iter(), |(k, v): (&K, &V)| (Some(k.key()), Some(v.get())))),
                Ro::RefInto => Box::new(De((&*self).into_iter(), |(k, v): (&K, &V)| (Some(k.key()), Some(v.get())))),
                Ro::Keys => Box::new(De(self.keys(), |k: &K| (Some(k.key()), None))),
                Ro::Values => Box::new(De(self.values(), |v: &V| (None, Some(v.get())))),
            }
        }
        fn rw<'a>(&'a mut self, kind: Rw) -> DynIt<'a, RwItem<'a, V>> {
            match kind {
                Rw::IterMut => Box::new(De(self.iter_mut(), |(k, v): (&K, &'a mut V)| (Some(k.key()), v))),
                Rw::MutInto => Box::new(De((&mut *self).into_iter(), |(k, v): (&K, &'a mut V)| (Some(k.key()), v))),
                Rw::ValuesMut => Box::new(De(self.values_mut(), |v: &'a mut V| (None, v))),
            }
        }
        fn own(self: Box<Self>, kind: Own) -> DynIt<'static, (Option<K>, Option<V>)> {
            match kind {
                Own::IntoIter => Box::new(De((*self).into_iter(), |(k, v)| (Some(k), Some(v)))),
                Own::IntoKeys => Box::new(De((*self).into_keys(), |k| (Some(k), None))),
                Own::IntoValues => Box::new(De((*self).into_values(), |v| (None, Some(v)))),
            }
        }
        fn get_kv(&self, k: u32, by_key: bool) -> Option<(u32, u64)> {
            by!(by_key, K, k, self.get_key_value, |(k, v): (&K, &V)| (k.key(), v.get()))
        }
        fn contains(&self, k: u32, by_key: bool) -> bool {
            by!(by_key, K, k, self.contains_key)
        }
        fn first_last(&self, last: bool) -> Option<(u32, u64)> {
            if last { self.last_key_value() } else { self.first_key_value() }.map(|(k, v)| (k.key(), v.get()))
        }
        fn pop(&mut self, last: bool) -> Option<(K, V)> {
            if last {
                self.pop_last()
            } else {
                self.pop_first()
            }
        }
        fn entry_op(&mut self, k: u32, at: Option<bool>, modify: bool, op: EntryOp, v: u64) -> Option<EntryOut> {
            use crate::tok::{event, Ev};
            let e = match at {
                None => self.entry(K::mk(k, 1)),
                Some(false) => self.first_entry()?,
                Some(true) => self.last_entry()?,
            };
            let mut out =
                EntryOut { key: e.key().key(), modify_calls: vec![], default_calls: vec![], value_seen: None };
            let mcalls = &mut out.modify_calls;
            let dcalls = std::cell::RefCell::new(vec![]);
            let e = if modify {
                e.and_modify(|x| {
                    event(Ev::Call);
                    mcalls.push(x.get());
                    x.set(x.get().wrapping_mul(3).wrapping_add(1));
                })
            } else {
                e
            };
            let touch = |x: &mut V| {
                let old = x.get();
                x.set(old ^ 0x1_0000);
                old
            };
            out.value_seen = match op {
                EntryOp::OrInsert => Some(touch(e.or_insert(V::mk(v)))),
                EntryOp::OrInsertWith => Some(touch(e.or_insert_with(|| {
                    event(Ev::Call);
                    dcalls.borrow_mut().push(None);
                    V::mk(v)
                }))),
                EntryOp::OrInsertWithKey => Some(touch(e.or_insert_with_key(|k| {
                    event(Ev::Call);
                    dcalls.borrow_mut().push(Some(k.key()));
                    V::mk(v)
                }))),
                EntryOp::OrDefault => Some(touch(e.or_default())),
                EntryOp::ModifyOnly | EntryOp::KeyOnly => None,
            };
            out.default_calls = dcalls.into_inner();
            Some(out)
        }
        fn append(&mut self, o: &mut dyn DynMap<K, V>) {
            self.append(o.as_any_mut().downcast_mut::<Self>().unwrap())
        }
        fn split_off(&mut self, k: u32, by_key: bool) -> Box<dyn DynMap<K, V>> {
            Box::new(by!(by_key, K, k, self.split_off))
        }
        fn retain(&mut self, f: &mut dyn FnMut(&K, &mut V) -> bool) {
            self.retain(|k, v| f(k, v))
        }
        fn range<'a>(&'a self, b: Bd, by_key: bool) -> DynIt<'a, RoItem> {
            let f = |(k, v): (&K, &V)| (Some(k.key()), Some(v.get()));
            if by_key {
                let r: (Bound<K>, Bound<K>) = (kbound(b.0), kbound(b.1));
                Box::new(Dr(self.range::<K, _>(r), f))
            } else {
                Box::new(Dr(self.range::<Qk, _>(QRange(qbound(b.0), qbound(b.1))), f))
            }
        }
        fn range_mut<'a>(&'a mut self, b: Bd, by_key: bool) -> DynIt<'a, RwItem<'a, V>> {
            let f = |(k, v): (&'a K, &'a mut V)| (Some(k.key()), v);
            if by_key {
                let r: (Bound<K>, Bound<K>) = (kbound(b.0), kbound(b.1));
                Box::new(Dr(self.range_mut::<K, _>(r), f))
            } else {
                Box::new(Dr(self.range_mut::<Qk, _>(QRange(qbound(b.0), qbound(b.1))), f))
            }
        }
        fn check(&self) -> Result<(), String> {
            lcc::Map::check(self)
        }
        fn eq_dyn(&self, o: &dyn DynMap<K, V>) -> bool {
            self == o.as_any().downcast_ref::<Self>().unwrap()
        }
        fn pcmp_dyn(&self, o: &dyn DynMap<K, V>) -> Option<std::cmp::Ordering> {
            self.partial_cmp(o.as_any().downcast_ref::<Self>().unwrap())
        }
        fn cmp_dyn(&self, o: &dyn DynMap<K, V>) -> std::cmp::Ordering {
            self.cmp(o.as_any().downcast_ref::<Self>().unwrap())
        }
        fn debug(&self) -> String {
            if self.len() % 3 == 1 { format!("{self:#?}") } else { format!("{self:?}") }
        }
    };
}

macro_rules! avl_missing {
    () => {
        fn hash64(&self) -> u64 {
            unreachable!()
        }
        fn index(&self, _: u32) -> u64 {
            unreachable!()
        }
        fn remove_entry(&mut self, _: u32) -> Option<(K, V)> {
            unreachable!()
        }
        fn extend_ref(&mut self, _: &[(K, V)]) {
            unreachable!()
        }
        fn binary(self: Box<Self>, _: Bin, _: Box<dyn DynMap<K, V>>) -> Box<dyn DynMap<K, V>> {
            unreachable!()
        }
        fn join(self: Box<Self>, _: K, _: V, _: Box<dyn DynMap<K, V>>) -> Box<dyn DynMap<K, V>> {
            unreachable!()
        }
        fn for_each(&self, _: &mut dyn FnMut(&K, &V)) {
            unreachable!()
        }
        fn for_each_mut(&mut self, _: &mut dyn FnMut(&K, &mut V)) {
            unreachable!()
        }
    };
}

pub type Avl<K, V> = lcc::AvlMap<K, V>;
pub type BTree<K, V, const N: usize> = lcc::btree::BTreeMap<K, V, N>;
pub type Fixed<K, V> = lcc::btree::fixed::BTreeMap<K, V>;

impl<K: KeyT, V: ValT> DynMap<K, V> for Avl<K, V> {
    fn name(&self) -> String {
        format!("AvlMap<{},{}>", K::NAME, V::NAME)
    }
    fn caps(&self) -> Caps {
        Caps { full: true, avl: true, n: 0, hash: true }
    }
    basic!();
    fn into_vec(self: Box<Self>) -> Vec<(K, V)> {
        (*self).into_iter().collect()
    }
    full!();
    fn hash64(&self) -> u64 {
        crate::hash64(self)
    }
    fn index(&self, k: u32) -> u64 {
        self[&Qk::of(k)].get()
    }
    fn remove_entry(&mut self, k: u32) -> Option<(K, V)> {
        self.remove_entry(&Qk::of(k))
    }
    fn extend_ref(&mut self, kv: &[(K, V)]) {
        Extend::<(&K, &V)>::extend(self, Hinted::auto(kv.iter()).map(|(k, v)| (k, v)))
    }
    fn binary(self: Box<Self>, op: Bin, o: Box<dyn DynMap<K, V>>) -> Box<dyn DynMap<K, V>> {
        let o = *o.into_any().downcast::<Self>().unwrap();
        Box::new(match op {
            Bin::Union => Self::new_union(*self, o),
            Bin::Inter => Self::new_intersect(*self, o),
            Bin::Diff => Self::new_diff(*self, o),
            Bin::SymDiff => Self::new_sym_diff(*self, o),
        })
    }
    fn join(self: Box<Self>, k: K, v: V, o: Box<dyn DynMap<K, V>>) -> Box<dyn DynMap<K, V>> {
        let o = *o.into_any().downcast::<Self>().unwrap();
        Box::new(Self::new_join(*self, k, v, o))
    }
    fn for_each(&self, f: &mut dyn FnMut(&K, &V)) {
        self.for_each(|(k, v)| f(k, v))
    }
    fn for_each_mut(&mut self, f: &mut dyn FnMut(&K, &mut V)) {
        self.for_each_mut(|(k, v)| f(k, v))
    }
}

impl<K: KeyT, V: ValT, const N: usize> DynMap<K, V> for BTree<K, V, N> {
    fn name(&self) -> String {
        format!("BTreeMap<{},{},{}>", K::NAME, V::NAME, N)
    }
    fn caps(&self) -> Caps {
        Caps { full: true, avl: false, n: N, hash: false }
    }
    basic!();
    fn into_vec(self: Box<Self>) -> Vec<(K, V)> {
        Vec::from(*self)
    }
    full!();
    avl_missing!();
}

impl<K: KeyT, V: ValT> DynMap<K, V> for Fixed<K, V> {
    fn name(&self) -> String {
        format!("fixed::BTreeMap<{},{}>", K::NAME, V::NAME)
    }
    fn caps(&self) -> Caps {
        Caps { full: false, avl: false, n: 5, hash: false }
    }
    basic!();
    fn into_vec(self: Box<Self>) -> Vec<(K, V)> {
        (*self).into_iter().collect()
    }
    fn get_mut(&mut self, k: u32, by_key: bool) -> Option<&mut V> {
        by!(by_key, K, k, self.get_mut)
    }
    fn insert(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v)
    }
    fn new_empty(&self) -> Box<dyn DynMap<K, V>> {
        Box::new(Self::new())
    }
    avl_missing!();
    fn from_arr(&self, kv: [(K, V); 4]) -> Box<dyn DynMap<K, V>> {
        Box::new(Hinted::auto(kv.into_iter()).collect::<Self>())
    }
    fn ro<'a>(&'a self, _: Ro) -> DynIt<'a, RoItem> {
        Box::new(De(self.iter(), |(k, v): (&K, &V)| (Some(k.key()), Some(v.get()))))
    }
    fn rw<'a>(&'a mut self, _: Rw) -> DynIt<'a, RwItem<'a, V>> {
        Box::new(De(self.iter_mut(), |(k, v): (&K, &'a mut V)| (Some(k.key()), v)))
    }
    fn own(self: Box<Self>, _: Own) -> DynIt<'static, (Option<K>, Option<V>)> {
        Box::new(De((*self).into_iter(), |(k, v)| (Some(k), Some(v))))
    }
    fn get_kv(&self, _: u32, _: bool) -> Option<(u32, u64)> {
        unreachable!()
    }
    fn contains(&self, _: u32, _: bool) -> bool {
        unreachable!()
    }
    fn first_last(&self, _: bool) -> Option<(u32, u64)> {
        unreachable!()
    }
    fn pop(&mut self, _: bool) -> Option<(K, V)> {
        unreachable!()
    }
    fn entry_op(&mut self, _: u32, _: Option<bool>, _: bool, _: EntryOp, _: u64) -> Option<EntryOut> {
        unreachable!()
    }
    fn append(&mut self, _: &mut dyn DynMap<K, V>) {
        unreachable!()
    }
    fn split_off(&mut self, _: u32, _: bool) -> Box<dyn DynMap<K, V>> {
        unreachable!()
    }
    fn retain(&mut self, _: &mut dyn FnMut(&K, &mut V) -> bool) {
        unreachable!()
    }
    fn range<'a>(&'a self, _: Bd, _: bool) -> DynIt<'a, RoItem> {
        unreachable!()
    }
    fn range_mut<'a>(&'a mut self, _: Bd, _: bool) -> DynIt<'a, RwItem<'a, V>> {
        unreachable!()
    }
    fn check(&self) -> Result<(), String> {
        Ok(())
    }
    fn eq_dyn(&self, _: &dyn DynMap<K, V>) -> bool {
        unreachable!()
    }
    fn pcmp_dyn(&self, _: &dyn DynMap<K, V>) -> Option<std::cmp::Ordering> {
        unreachable!()
    }
    fn cmp_dyn(&self, _: &dyn DynMap<K, V>) -> std::cmp::Ordering {
        unreachable!()
    }
    fn debug(&self) -> String {
        unreachable!()
    }
}

// ---------------------------------------------------------------- sets
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SetIt {
    Iter,
    RefInto,
}

/// (key, tag) of an element
pub type El = (u32, u32);

pub trait DynSet<T: KeyT>: Any {
    fn name(&self) -> String;
    fn n(&self) -> usize;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn as_any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn new_empty(&self) -> Box<dyn DynSet<T>>;
    fn clone_box(&self) -> Box<dyn DynSet<T>>;
    fn clone_from_dyn(&mut self, o: &dyn DynSet<T>);
    fn take_box(&mut self) -> Box<dyn DynSet<T>>;
    fn collect_new(&self, xs: Vec<T>) -> Box<dyn DynSet<T>>;
    fn from_arr(&self, xs: [T; 4]) -> Box<dyn DynSet<T>>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn contains(&self, k: u32, by_key: bool) -> bool;
    fn get(&self, k: u32, by_key: bool) -> Option<El>;
    fn insert(&mut self, x: T) -> bool;
    fn replace(&mut self, x: T) -> Option<T>;
    fn remove(&mut self, k: u32, by_key: bool) -> bool;
    fn take(&mut self, k: u32, by_key: bool) -> Option<T>;
    fn first_last(&self, last: bool) -> Option<El>;
    fn pop(&mut self, last: bool) -> Option<T>;
    fn append(&mut self, o: &mut dyn DynSet<T>);
    fn split_off(&mut self, k: u32, by_key: bool) -> Box<dyn DynSet<T>>;
    fn retain(&mut self, f: &mut dyn FnMut(&T) -> bool);
    fn extend(&mut self, xs: &mut dyn Iterator<Item = T>);
    fn extend_ref(&mut self, xs: &[T]);
    fn ro<'a>(&'a self, k: SetIt) -> DynIt<'a, El>;
    fn own(self: Box<Self>) -> DynIt<'static, T>;
    fn range<'a>(&'a self, b: Bd, by_key: bool) -> DynIt<'a, El>;
    fn lazy<'a>(&'a self, op: Bin, o: &'a dyn DynSet<T>) -> DynIt<'a, El>;
    fn operator(&self, op: Bin, o: &dyn DynSet<T>) -> Box<dyn DynSet<T>>;
    fn consume(self: Box<Self>, op: Bin, o: Box<dyn DynSet<T>>) -> Box<dyn DynSet<T>>;
    /// (disjoint, subset, superset)
    fn relations(&self, o: &dyn DynSet<T>) -> (bool, bool, bool);
    fn check(&self) -> Result<(), String>;
    fn eq_dyn(&self, o: &dyn DynSet<T>) -> bool;
    fn pcmp_dyn(&self, o: &dyn DynSet<T>) -> Option<std::cmp::Ordering>;
    fn cmp_dyn(&self, o: &dyn DynSet<T>) -> std::cmp::Ordering;
    fn hash64(&self) -> u64;
    fn debug(&self) -> String;
}

fn el<T: KeyT>(x: &T) -> El {
    (x.key(), x.tag())
}

macro_rules! set_impl {
    ($It:ident, $ItR:ident) => {
        fn as_any_mut(&mut self) -> &mut dyn Any {
            self
        }
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn into_any(self: Box<Self>) -> Box<dyn Any> {
            self
        }
        fn new_empty(&self) -> Box<dyn DynSet<T>> {
            Box::new(if self.len() % 2 == 0 { Self::new() } else { Self::default() })
        }
        fn clone_box(&self) -> Box<dyn DynSet<T>> {
            Box::new(self.clone())
        }
        fn clone_from_dyn(&mut self, o: &dyn DynSet<T>) {
            self.clone_from(o.as_any().downcast_ref::<Self>().unwrap())
        }
        fn take_box(&mut self) -> Box<dyn DynSet<T>> {
            Box::new(std::mem::take(self))
        }
        fn collect_new(&self, xs: Vec<T>) -> Box<dyn DynSet<T>> {
            Box::new(Hinted::auto(xs.into_iter()).collect::<Self>())
        }
        fn from_arr(&self, xs: [T; 4]) -> Box<dyn DynSet<T>> {
            Box::new(Self::from(xs))
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn is_empty(&self) -> bool {
            self.is_empty()
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn contains(&self, k: u32, by_key: bool) -> bool {
            by!(by_key, T, k, self.contains)
        }
        fn get(&self, k: u32, by_key: bool) -> Option<El> {
            by!(by_key, T, k, self.get, el)
        }
        fn insert(&mut self, x: T) -> bool {
            // now and then through the crate's trait
            if (x.key() as usize ^ self.len()) % 7 == 0 {
                lcc::Set::insert_(self, x)
            } else {
                self.insert(x)
            }
        }
        fn replace(&mut self, x: T) -> Option<T> {
            self.replace(x)
        }
        fn remove(&mut self, k: u32, by_key: bool) -> bool {
            by!(by_key, T, k, self.remove)
        }
        fn take(&mut self, k: u32, by_key: bool) -> Option<T> {
            by!(by_key, T, k, self.take)
        }
        fn first_last(&self, last: bool) -> Option<El> {
            if last { self.last() } else { self.first() }.map(el)
        }
        fn pop(&mut self, last: bool) -> Option<T> {
            if last {
                self.pop_last()
            } else {
                self.pop_first()
            }
        }
        fn append(&mut self, o: &mut dyn DynSet<T>) {
            self.append(o.as_any_mut().downcast_mut::<Self>().unwrap())
        }
        fn split_off(&mut self, k: u32, by_key: bool) -> Box<dyn DynSet<T>> {
            Box::new(by!(by_key, T, k, self.split_off))
        }
        fn retain(&mut self, f: &mut dyn FnMut(&T) -> bool) {
            self.retain(|x| f(x))
        }
        fn extend(&mut self, xs: &mut dyn Iterator<Item = T>) {
            Extend::<T>::extend(self, xs)
        }
        fn extend_ref(&mut self, xs: &[T]) {
            Extend::<&T>::extend(self, Hinted::auto(xs.iter()))
        }
        fn ro<'a>(&'a self, k: SetIt) -> DynIt<'a, El> {
            match k {
                SetIt::Iter => Box::new($It(self.iter(), el::<T>)),
                SetIt::RefInto => Box::new($It((&*self).into_iter(), el::<T>)),
            }
        }
        fn own(self: Box<Self>) -> DynIt<'static, T> {
            Box::new($It((*self).into_iter(), |x| x))
        }
        fn range<'a>(&'a self, b: Bd, by_key: bool) -> DynIt<'a, El> {
            if by_key {
                let r: (Bound<T>, Bound<T>) = (kbound(b.0), kbound(b.1));
                Box::new($ItR(self.range::<T, _>(r), el::<T>))
            } else {
                Box::new($ItR(self.range::<Qk, _>(QRange(qbound(b.0), qbound(b.1))), el::<T>))
            }
        }
        fn lazy<'a>(&'a self, op: Bin, o: &'a dyn DynSet<T>) -> DynIt<'a, El> {
            let o = o.as_any().downcast_ref::<Self>().unwrap();
            match op {
                Bin::Union => Box::new(Fw(self.union(o), el::<T>)),
                Bin::Inter => Box::new(Fw(self.intersection(o), el::<T>)),
                Bin::Diff => Box::new(Fw(self.difference(o), el::<T>)),
                Bin::SymDiff => Box::new(Fw(self.symmetric_difference(o), el::<T>)),
            }
        }
        fn operator(&self, op: Bin, o: &dyn DynSet<T>) -> Box<dyn DynSet<T>> {
            let o = o.as_any().downcast_ref::<Self>().unwrap();
            Box::new(match op {
                Bin::Union => self | o,
                Bin::Inter => self & o,
                Bin::Diff => self - o,
                Bin::SymDiff => self ^ o,
            })
        }
        fn consume(self: Box<Self>, op: Bin, o: Box<dyn DynSet<T>>) -> Box<dyn DynSet<T>> {
            let o = *o.into_any().downcast::<Self>().unwrap();
            Box::new(match op {
                Bin::Union => Self::new_union(*self, o),
                Bin::Inter => Self::new_intersection(*self, o),
                Bin::Diff => Self::new_diff(*self, o),
                Bin::SymDiff => Self::new_sym_diff(*self, o),
            })
        }
        fn relations(&self, o: &dyn DynSet<T>) -> (bool, bool, bool) {
            let o = o.as_any().downcast_ref::<Self>().unwrap();
            (self.is_disjoint(o), self.is_subset(o), self.is_superset(o))
        }
        fn check(&self) -> Result<(), String> {
            lcc::Set::check(self)
        }
        fn eq_dyn(&self, o: &dyn DynSet<T>) -> bool {
            self == o.as_any().downcast_ref::<Self>().unwrap()
        }
        fn pcmp_dyn(&self, o: &dyn DynSet<T>) -> Option<std::cmp::Ordering> {
            self.partial_cmp(o.as_any().downcast_ref::<Self>().unwrap())
        }
        fn cmp_dyn(&self, o: &dyn DynSet<T>) -> std::cmp::Ordering {
            self.cmp(o.as_any().downcast_ref::<Self>().unwrap())
        }
        fn hash64(&self) -> u64 {
            crate::hash64(self)
        }
        fn debug(&self) -> String {
            if self.len() % 3 == 1 { format!("{self:#?}") } else { format!("{self:?}") }
        }
    };
}

pub type AvlSet<T> = lcc::AvlSet<T>;
pub type BSet<T, const N: usize> = lcc::btree::btree_set::BTreeSet<T, N>;

impl<T: KeyT> DynSet<T> for AvlSet<T> {
    fn name(&self) -> String {
        format!("AvlSet<{}>", T::NAME)
    }
    fn n(&self) -> usize {
        0
    }
    set_impl!(Fe, Dr);
}
impl<T: KeyT, const N: usize> DynSet<T> for BSet<T, N> {
    fn name(&self) -> String {
        format!("BTreeSet<{},{}>", T::NAME, N)
    }
    fn n(&self) -> usize {
        N
    }
    set_impl!(De, Dr);
}
