//! Light-weight histories for the undefined-behaviour interpreter and the sanitizers.
//!
//! No registry and no trait objects here: the interpreter itself watches memory.  What this engine contributes is element types of many
//! layouts, references that are held as long as the signatures allow, iterators abandoned anywhere, inconsistent orderings, and (in
//! panic mode) panics out of the element types' own code.  Contents are still compared with std's collections, so that a run that went
//! wrong without undefined behaviour is noticed as well.
use crate::api::Hinted;
use crate::rng::Rng;
use crate::run::{doing, panic_msg, Stats};
use lazy_clone_collections as lcc;
use lcc::btree::btree_set::BTreeSet;
use lcc::{AvlMap, AvlSet, Stack};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap as Std;
use std::fmt::Debug;
use std::hash::Hash;
use std::num::{NonZeroU32, NonZeroU8};
use std::ops::Bound::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub trait El: Clone + Debug + 'static {
    const NAME: &'static str;
    /// what reading back mk(n) gives
    fn norm(n: u32) -> u32;
    fn mk(n: u32) -> Self;
    /// read all of it
    fn id(&self) -> u32;
    /// write all of it, through the reference
    fn poke(&mut self, n: u32) {
        *self = Self::mk(n)
    }
}
pub trait Key: El + Ord + Hash {
    /// orders consistently, and as its id does
    const SANE: bool = true;
}

macro_rules! el {
    ($T:ty, $name:expr, |$n:ident| $mk:expr, |$x:ident| $id:expr, $norm:expr) => {
        impl El for $T {
            const NAME: &'static str = $name;
            fn norm($n: u32) -> u32 {
                $norm
            }
            fn mk($n: u32) -> Self {
                $mk
            }
            fn id(&self) -> u32 {
                let $x = self;
                $id
            }
        }
    };
}
el!((), "()", |_n| (), |_x| 0, 0);
el!(bool, "bool", |n| n % 2 == 1, |x| *x as u32, n % 2);
el!(u8, "u8", |n| n as u8, |x| *x as u32, n % 256);
el!(u32, "u32", |n| n, |x| *x, n);
el!(u64, "u64", |n| (n as u64) << 32 | n as u64, |x| { assert_eq!(x >> 32, x & 0xffff_ffff); *x as u32 }, n);
el!(char, "char", |n| char::from_u32(n % 0xd000).unwrap(), |x| *x as u32, n % 0xd000);
el!((u8, u32), "(u8,u32)", |n| (7, n), |x| { assert_eq!(x.0, 7); x.1 }, n);
el!((u32, u8, u16), "(u32,u8,u16)", |n| (n, 1, 2), |x| { assert_eq!((x.1, x.2), (1, 2)); x.0 }, n);
el!(Box<u32>, "Box<u32>", |n| Box::new(n), |x| **x, n);
el!(String, "String", |n| text(n), |x| x.as_bytes().iter().fold(0, |a, b| a * 64 + (*b as u32 - 48)), n);
fn text(n: u32) -> String {
    // five digits of six bits, so that texts order as numbers do
    let d = |i: u32| (48 + (n >> (6 * i) & 63)) as u8;
    String::from_utf8(vec![d(4), d(3), d(2), d(1), d(0)]).unwrap()
}
el!(Vec<u8>, "Vec<u8>", |n| n.to_be_bytes().to_vec(), |x| u32::from_be_bytes(x[..].try_into().unwrap()), n);
el!(NonZeroU32, "NonZeroU32", |n| NonZeroU32::new(n + 1).unwrap(), |x| x.get() - 1, n);
el!(Option<NonZeroU8>, "Option<NonZeroU8>", |n| NonZeroU8::new(n as u8), |x| x.map_or(0, |y| y.get() as u32), n % 256);
el!(Option<Box<u32>>, "Option<Box<u32>>", |n| if n == 0 { None } else { Some(Box::new(n)) }, |x| x.as_ref().map_or(0, |b| **b), n);
el!(Rc<u32>, "Rc<u32>", |n| Rc::new(n), |x| **x, n);
el!(Rc<String>, "Rc<String>", |n| Rc::new(text(n)), |x| x.as_bytes().iter().fold(0, |a, b| a * 64 + (*b as u32 - 48)), n);
el!([u64; 9], "[u64;9]", |n| [n as u64; 9], |x| { assert!(x.iter().all(|y| *y == x[0])); x[0] as u32 }, n);
el!(Cell<u32>, "Cell<u32>", |n| Cell::new(n), |x| { x.set(x.get()); x.get() }, n);
el!(RefCell<Vec<u32>>, "RefCell<Vec<u32>>", |n| RefCell::new(vec![n; 3]), |x| { x.borrow_mut().push(0); let mut b = x.borrow_mut(); b.pop(); b[0] }, n);
el!(&'static [u16], "&'static [u16]", |n| &WORDS[..n as usize % 100], |x| x.len() as u32, n % 100);
static WORDS: [u16; 100] = [7; 100];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(align(64))]
pub struct Al64(u32);
el!(Al64, "align 64", |n| Al64(n), |x| { assert_eq!(x as *const _ as usize % 64, 0); x.0 }, n);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(align(32))]
pub struct AlZ;
el!(AlZ, "zero-sized, align 32", |_n| AlZ, |x| { assert_eq!(x as *const _ as usize % 32, 0); 0 }, 0);

// zero-sized, but counted: as many drops as creations
thread_local! {
    static ZST: Cell<i64> = const { Cell::new(0) };
    static FUSE: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static LIE: Cell<u32> = const { Cell::new(0) };
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ZDrop(());
impl ZDrop {
    fn new() -> Self {
        ZST.with(|z| z.set(z.get() + 1));
        ZDrop(())
    }
}
impl Clone for ZDrop {
    fn clone(&self) -> Self {
        ZDrop::new()
    }
}
impl Drop for ZDrop {
    fn drop(&mut self) {
        ZST.with(|z| z.set(z.get() - 1))
    }
}
el!(ZDrop, "zero-sized with drop", |_n| ZDrop::new(), |_x| 0, 0);

/// user code that may panic: every clone, comparison and drop counts down a fuse
#[derive(Debug)]
pub struct Fuse(Box<u32>);
struct Blown;
fn fuse() {
    let f = FUSE.with(|f| f.get());
    if f > 0 {
        FUSE.with(|x| x.set(f - 1));
        if f == 1 && !std::thread::panicking() {
            FIRED.with(|x| x.set(true));
            std::panic::panic_any(Blown);
        }
    }
}
impl Clone for Fuse {
    fn clone(&self) -> Self {
        fuse();
        Fuse(self.0.clone())
    }
}
impl Drop for Fuse {
    fn drop(&mut self) {
        fuse()
    }
}
impl PartialEq for Fuse {
    fn eq(&self, o: &Self) -> bool {
        fuse();
        self.0 == o.0
    }
}
impl Eq for Fuse {}
impl PartialOrd for Fuse {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fuse {
    fn cmp(&self, o: &Self) -> Ordering {
        fuse();
        self.0.cmp(&o.0)
    }
}
impl Hash for Fuse {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
el!(Fuse, "may panic", |n| Fuse(Box::new(n)), |x| *x.0, n);

/// compares at random now and then
#[derive(Clone, Debug, Hash)]
pub struct Liar(Box<u32>);
impl PartialEq for Liar {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Liar {}
impl PartialOrd for Liar {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Liar {
    fn cmp(&self, o: &Self) -> Ordering {
        let l = LIE.with(|l| {
            l.set(l.get().wrapping_mul(1_664_525).wrapping_add(1_013_904_223));
            l.get() >> 24
        });
        match l {
            0..=9 => Ordering::Less,
            10..=19 => Ordering::Equal,
            20..=29 => Ordering::Greater,
            _ => self.0.cmp(&o.0),
        }
    }
}
el!(Liar, "inconsistent order", |n| Liar(Box::new(n)), |x| *x.0, n);

impl Key for () {}
impl Key for bool {}
impl Key for u8 {}
impl Key for u32 {}
impl Key for u64 {}
impl Key for char {}
impl Key for (u8, u32) {}
impl Key for (u32, u8, u16) {}
impl Key for Box<u32> {}
impl Key for String {}
impl Key for Vec<u8> {}
impl Key for NonZeroU32 {}
impl Key for Option<NonZeroU8> {}
impl Key for Option<Box<u32>> {}
impl Key for Rc<u32> {}
impl Key for [u64; 9] {}
impl Key for Al64 {}
impl Key for ZDrop {}
impl Key for AlZ {}
impl Key for Fuse {}
impl Key for Liar {
    const SANE: bool = false;
}

/// Runs one step; in panic mode or with inconsistent keys a panic is an outcome like any other.  True if it panicked.
fn step(may_panic: bool, f: impl FnOnce()) -> bool {
    if may_panic {
        let r = catch_unwind(AssertUnwindSafe(f));
        FUSE.with(|x| x.set(0));
        r.is_err()
    } else {
        f();
        false
    }
}

#[derive(Clone, Copy)]
#[allow(non_camel_case_types)]
enum St {
    operations,
    histories,
    clones,
    iterator_steps,
    panics,
}
#[derive(Default)]
pub struct Env {
    pub n: [u64; 5],
    pub panics: bool,
    /// wrong answers are violations, not just noted
    pub answers: bool,
    /// only maps (1), only sets (2), only stacks (3), tall maps (4), or anything (0)
    pub kind: u64,
}
impl Env {
    fn add(&mut self, s: St, n: u64) {
        self.n[s as usize] += n
    }
    pub fn stats(&self) -> Stats {
        let mut s = Stats::default();
        for (k, n) in ["operations", "histories", "clones", "iterator_steps", "panics"].iter().zip(self.n) {
            s.add(k, n)
        }
        s
    }
    fn arm(&mut self, r: &mut Rng) {
        if self.panics && r.chance(1, 2) {
            FIRED.with(|x| x.set(false));
            let far = if r.chance(1, 3) { 60 } else { 12 };
            FUSE.with(|x| x.set(1 + r.below(far) as u64));
        }
    }
}


type Md = Std<u32, u32>;
type BIt<'a, T> = Box<dyn DIt<Item = T> + 'a>;
/// iterators, double-ended where the collection's are
pub trait DIt: Iterator {
    fn back(&mut self) -> Option<Self::Item>;
}
struct Both<I>(I);
struct Fwd<I>(I);
macro_rules! dit {
    ($T:ident) => {
        impl<I: Iterator> Iterator for $T<I> {
            type Item = I::Item;
            fn next(&mut self) -> Option<I::Item> {
                self.0.next()
            }
            fn nth(&mut self, n: usize) -> Option<I::Item> {
                self.0.nth(n)
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
        }
    };
}
dit!(Both);
dit!(Fwd);
impl<I: DoubleEndedIterator> DIt for Both<I> {
    fn back(&mut self) -> Option<I::Item> {
        self.0.next_back()
    }
}
impl<I: Iterator> DIt for Fwd<I> {
    fn back(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

#[derive(Clone, Copy)]
pub enum EOp {
    Insert,
    With,
    WithKey,
}
type Rg<K> = (std::ops::Bound<K>, std::ops::Bound<K>);

/// the maps behind one set of static calls
pub trait Lm<K: Key, V: El + Ord>: Clone {
    const FULL: bool;
    const AVL: bool;
    const NAME: &'static str;
    fn new() -> Self;
    fn from_vec(v: Vec<(K, V)>) -> Self;
    fn insert(&mut self, k: K, v: V) -> Option<V>;
    fn remove(&mut self, k: &K) -> Option<V>;
    fn get(&self, k: &K) -> Option<&V>;
    fn get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn len(&self) -> usize;
    fn clear(&mut self);
    fn extend(&mut self, v: Vec<(K, V)>);
    fn iter(&self) -> BIt<'_, (&K, &V)>;
    /// the iterator printed after some steps
    fn dbg(&self, steps: usize) -> String;
    fn iter_mut(&mut self) -> BIt<'_, (&K, &mut V)>;
    fn into_iter(self) -> BIt<'static, (K, V)>;
    fn into_keys(self) -> BIt<'static, K>;
    fn into_values(self) -> BIt<'static, V>;
    fn pop(&mut self, last: bool) -> Option<(K, V)>;
    fn ends(&self) -> u32;
    fn probe(&self, k: &K) -> u32;
    /// modify, then insert; what key it was, and the reference it returned
    fn entry(&mut self, at: Option<bool>, k: u32, modify: bool, op: EOp, v: u32) -> Option<(u32, &mut V)>;
    fn range(&self, b: Rg<K>) -> BIt<'_, (&K, &V)>;
    fn range_mut(&mut self, b: Rg<K>) -> BIt<'_, (&K, &mut V)>;
    fn append(&mut self, o: &mut Self);
    fn split_off(&mut self, k: &K) -> Self;
    fn retain(&mut self, f: &mut dyn FnMut(&K, &mut V) -> bool);
    fn walk(&mut self, n: usize) -> u64;
    fn same(&self, o: &Self) -> bool;
    fn bin(a: Self, b: Self, op: u32) -> Self;
    fn join(a: Self, k: K, v: V, b: Self) -> Self;
    fn each(&mut self) -> u64;
    fn remove_entry(&mut self, k: &K) -> Option<(K, V)>;
}

macro_rules! lm_basic {
    () => {
        fn new() -> Self {
            Self::new()
        }
        fn from_vec(v: Vec<(K, V)>) -> Self {
            Hinted::auto(v.into_iter()).collect()
        }
        fn insert(&mut self, k: K, v: V) -> Option<V> {
            self.insert(k, v)
        }
        fn remove(&mut self, k: &K) -> Option<V> {
            self.remove(k)
        }
        fn get(&self, k: &K) -> Option<&V> {
            self.get(k)
        }
        fn get_mut(&mut self, k: &K) -> Option<&mut V> {
            self.get_mut(k)
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn extend(&mut self, v: Vec<(K, V)>) {
            Extend::<(K, V)>::extend(self, Hinted::auto(v.into_iter()))
        }
        fn iter(&self) -> BIt<'_, (&K, &V)> {
            Box::new(Both(self.iter()))
        }
        fn iter_mut(&mut self) -> BIt<'_, (&K, &mut V)> {
            Box::new(Both(self.iter_mut()))
        }
        fn into_iter(self) -> BIt<'static, (K, V)> {
            Box::new(Both(IntoIterator::into_iter(self)))
        }
    };
}
macro_rules! lm_full {
    () => {
        fn into_keys(self) -> BIt<'static, K> {
            Box::new(Both(self.into_keys()))
        }
        fn into_values(self) -> BIt<'static, V> {
            Box::new(Both(self.into_values()))
        }
        fn pop(&mut self, last: bool) -> Option<(K, V)> {
            if last {
                self.pop_last()
            } else {
                self.pop_first()
            }
        }
        fn ends(&self) -> u32 {
            let f = |x: Option<(&K, &V)>| x.map_or(0, |(k, v)| k.id().wrapping_add(v.id()));
            f(self.first_key_value()).wrapping_add(f(self.last_key_value()))
        }
        fn probe(&self, k: &K) -> u32 {
            self.contains_key(k) as u32 + self.get_key_value(k).map_or(0, |(k, v)| k.id().wrapping_add(v.id()))
        }
        fn entry(&mut self, at: Option<bool>, k: u32, modify: bool, op: EOp, v: u32) -> Option<(u32, &mut V)> {
            let e = match at {
                None => self.entry(K::mk(k)),
                Some(false) => self.first_entry()?,
                Some(true) => self.last_entry()?,
            };
            let key = e.key().id();
            let e = if modify {
                e.and_modify(|x| {
                    x.id();
                    x.poke(v)
                })
            } else {
                e
            };
            Some((
                key,
                match op {
                    EOp::Insert => e.or_insert(V::mk(v)),
                    EOp::With => e.or_insert_with(|| V::mk(v)),
                    EOp::WithKey => e.or_insert_with_key(|k| {
                        k.id();
                        V::mk(v)
                    }),
                },
            ))
        }
        fn range(&self, b: Rg<K>) -> BIt<'_, (&K, &V)> {
            Box::new(Both(self.range::<K, _>(b)))
        }
        fn range_mut(&mut self, b: Rg<K>) -> BIt<'_, (&K, &mut V)> {
            Box::new(Both(self.range_mut::<K, _>(b)))
        }
        fn append(&mut self, o: &mut Self) {
            self.append(o)
        }
        fn split_off(&mut self, k: &K) -> Self {
            self.split_off(k)
        }
        fn retain(&mut self, f: &mut dyn FnMut(&K, &mut V) -> bool) {
            self.retain(|k, v| f(k, v))
        }
        fn walk(&mut self, n: usize) -> u64 {
            let mut s = 0u64;
            for v in self.values_mut().take(n) {
                let x = v.id();
                v.poke(x);
            }
            self.keys().for_each(|k| s += k.id() as u64);
            self.values().for_each(|k| s += k.id() as u64);
            s
        }
        fn same(&self, o: &Self) -> bool {
            let e = self == o;
            let c = self.cmp(o);
            let p = self.partial_cmp(o);
            let d = format!("{self:?}");
            std::hint::black_box((c, p, d));
            e
        }
    };
}
impl<K: Key, V: El + Ord> Lm<K, V> for AvlMap<K, V> {
    const FULL: bool = true;
    const AVL: bool = true;
    const NAME: &'static str = "AvlMap";
    lm_basic!();
    lm_full!();
    fn dbg(&self, _: usize) -> String {
        format!("{self:?}")
    }
    fn bin(a: Self, b: Self, op: u32) -> Self {
        match op {
            0 => Self::new_union(a, b),
            1 => Self::new_intersect(a, b),
            2 => Self::new_diff(a, b),
            _ => Self::new_sym_diff(a, b),
        }
    }
    fn join(a: Self, k: K, v: V, b: Self) -> Self {
        Self::new_join(a, k, v, b)
    }
    fn each(&mut self) -> u64 {
        let mut s = 0u64;
        self.for_each(|(k, v)| s += k.id() as u64 + v.id() as u64);
        self.for_each_mut(|(k, v)| {
            let x = v.id();
            v.poke(x);
            s += k.id() as u64
        });
        s
    }
    fn remove_entry(&mut self, k: &K) -> Option<(K, V)> {
        self.remove_entry(k)
    }
}
macro_rules! no_avl {
    () => {
        fn bin(_: Self, _: Self, _: u32) -> Self {
            unreachable!()
        }
        fn join(_: Self, _: K, _: V, _: Self) -> Self {
            unreachable!()
        }
        fn each(&mut self) -> u64 {
            unreachable!()
        }
        fn remove_entry(&mut self, _: &K) -> Option<(K, V)> {
            unreachable!()
        }
    };
}
impl<K: Key, V: El + Ord, const N: usize> Lm<K, V> for lcc::btree::BTreeMap<K, V, N> {
    const FULL: bool = true;
    const AVL: bool = false;
    const NAME: &'static str = "BTreeMap";
    lm_basic!();
    lm_full!();
    no_avl!();
    fn dbg(&self, steps: usize) -> String {
        let (mut a, mut b, mut c) = (self.iter(), IntoIterator::into_iter(self.clone()), self.clone());
        let mut d = self.clone();
        let mut m = c.iter_mut();
        let (mut e, mut f) = (self.range::<K, _>(..), d.range_mut::<K, _>(..));
        let mut held = vec![];
        for i in 0..steps {
            if i % 3 == 0 {
                held.extend([m.next_back(), f.next_back()]);
                (a.next_back(), b.next_back(), e.next_back());
            } else {
                held.extend([m.next(), f.next()]);
                (a.next(), b.next(), e.next());
            }
        }
        // printed while what they handed out is still in use
        let mut s = format!("{a:?}{b:?}{e:?}");
        s += &format!("{m:?}{f:?}");
        for (k, v) in held.into_iter().flatten() {
            k.id();
            let x = v.id();
            v.poke(x);
        }
        s
    }
}
impl<K: Key, V: El + Ord> Lm<K, V> for lcc::btree::fixed::BTreeMap<K, V> {
    const FULL: bool = false;
    const AVL: bool = false;
    const NAME: &'static str = "fixed::BTreeMap";
    lm_basic!();
    no_avl!();
    fn dbg(&self, _: usize) -> String {
        String::new()
    }
    fn into_keys(self) -> BIt<'static, K> {
        unreachable!()
    }
    fn into_values(self) -> BIt<'static, V> {
        unreachable!()
    }
    fn pop(&mut self, _: bool) -> Option<(K, V)> {
        unreachable!()
    }
    fn ends(&self) -> u32 {
        unreachable!()
    }
    fn probe(&self, _: &K) -> u32 {
        unreachable!()
    }
    fn entry(&mut self, _: Option<bool>, _: u32, _: bool, _: EOp, _: u32) -> Option<(u32, &mut V)> {
        unreachable!()
    }
    fn range(&self, _: Rg<K>) -> BIt<'_, (&K, &V)> {
        unreachable!()
    }
    fn range_mut(&mut self, _: Rg<K>) -> BIt<'_, (&K, &mut V)> {
        unreachable!()
    }
    fn append(&mut self, _: &mut Self) {
        unreachable!()
    }
    fn split_off(&mut self, _: &K) -> Self {
        unreachable!()
    }
    fn retain(&mut self, _: &mut dyn FnMut(&K, &mut V) -> bool) {
        unreachable!()
    }
    fn walk(&mut self, _: usize) -> u64 {
        unreachable!()
    }
    fn same(&self, _: &Self) -> bool {
        unreachable!()
    }
}

struct H<M, D> {
    m: M,
    md: D,
    /// false once a panic or an inconsistent key made the contents unpredictable
    known: bool,
}

/// Takes items from both ends, mostly not all of them.
fn drain<T>(it: &mut BIt<'_, T>, r: &mut Rng, mut see: impl FnMut(T)) {
    let n = if r.chance(1, if cfg!(miri) { 6 } else { 3 }) { usize::MAX } else { r.below(14) };
    let dir = r.below(4);
    for _ in 0..n {
        let back = dir == 1 || (dir > 1 && r.chance(1, 2));
        match if back { it.back() } else { it.next() } {
            Some(x) => see(x),
            None => break,
        }
    }
    if r.chance(1, 6) {
        if let Some(x) = it.nth(r.below(4)) {
            see(x)
        }
    }
    it.size_hint();
}
fn range_of<K: Key>(r: &mut Rng, a: u32, b: u32) -> Rg<K> {
    let fuse = FUSE.with(|f| f.replace(0));
    let x = range_of_(r, a, b);
    FUSE.with(|f| f.set(fuse));
    x
}
fn range_of_<K: Key>(r: &mut Rng, a: u32, b: u32) -> Rg<K> {
    let (a, b) = (K::mk(a.min(b)), K::mk(a.max(b)));
    match r.below(4) {
        0 => (Included(a), Included(b)),
        1 => (Unbounded, Included(b)),
        2 => (Excluded(a), Unbounded),
        _ => (Included(a), Excluded(b)),
    }
}

fn pick_size(r: &mut Rng) -> usize {
    *r.pick(if cfg!(miri) { &[5usize, 8, 12, 16, 20, 24, 32, 60] } else { &[6usize, 20, 20, 60, 60, 200] })
}
fn maps<K: Key, V: El + Ord, M: Lm<K, V>>(r: &mut Rng, env: &mut Env, ops: usize) -> Result<(), String> {
    let may = env.panics || !K::SANE;
    let uni = pick_size(r);
    doing(|| format!("{}<{}, {}> over {uni} keys{}", M::NAME, K::NAME, V::NAME, if env.panics { ", with panics" } else { "" }));
    env.add(St::histories, 1);
    let mut pool: Vec<H<M, Md>> = vec![H { m: M::new(), md: Md::new(), known: K::SANE }];
    let nops = if M::AVL { 48 } else if M::FULL { 41 } else { 28 };
    let vn = V::norm;
    for _ in 0..ops {
        let i = r.below(pool.len());
        let (k, v) = (r.below(uni) as u32, r.below(1 << 16) as u32);
        env.add(St::operations, 1);
        let op = r.below(nops);
        doing(|| format!("op {op} on handle {i}, key {k}"));
        let h = &mut pool[i];
        let mut bad: Option<String> = None;
        let mut expect = |ok: bool, what: &str| {
            if !ok {
                bad = Some(what.to_string())
            }
        };
        // anything that can be made beforehand without the collection is, so that panics hit the collection's own work
        env.arm(r);
        let mut p = false;
        match op {
            0..=5 => {
                p = step(may, || {
                    let got = h.m.insert(K::mk(k), V::mk(v)).map(|x| x.id());
                    expect(!h.known || got == h.md.insert(K::norm(k), vn(v)), "insert's result");
                })
            }
            6 | 7 => {
                p = step(may, || {
                    for j in 0..r.range(1, 12) as u32 {
                        h.m.insert(K::mk(k + j), V::mk(v));
                        h.md.insert(K::norm(k + j), vn(v));
                    }
                })
            }
            8..=10 => {
                p = step(may, || {
                    let got = h.m.remove(&K::mk(k)).map(|x| x.id());
                    expect(!h.known || got == h.md.remove(&K::norm(k)), "remove's result");
                })
            }
            11 => {
                p = step(may, || {
                    for j in 0..r.range(1, 10) as u32 {
                        h.m.remove(&K::mk(k + j));
                        h.md.remove(&K::norm(k + j));
                    }
                })
            }
            12 => {
                p = step(may, || {
                    let got = h.m.get(&K::mk(k)).map(|x| x.id());
                    expect(!h.known || got == h.md.get(&K::norm(k)).copied(), "get's result");
                })
            }
            13 => {
                p = step(may, || {
                    if let Some(x) = h.m.get_mut(&K::mk(k)) {
                        x.id();
                        x.poke(v);
                        if let Some(x) = h.md.get_mut(&K::norm(k)) {
                            *x = vn(v)
                        }
                    }
                })
            }
            14 | 15 => {
                env.add(St::clones, 1);
                let mut c = None;
                step(may, || c = Some(h.m.clone()));
                if let Some(m) = c {
                    let (md, known) = (h.md.clone(), h.known);
                    let x = H { m, md, known };
                    if pool.len() >= 5 {
                        let j = r.below(pool.len());
                        let old = std::mem::replace(&mut pool[j], x);
                        step(may, || drop(old));
                    } else {
                        pool.push(x);
                    }
                }
                continue;
            }
            16 => {
                step(may, || {
                    let mut held = vec![];
                    let mut it = h.m.iter();
                    drain(&mut it, r, |x| held.push(x));
                    let mut n = 0;
                    held.iter().for_each(|(k, v)| {
                        k.id();
                        v.id();
                        n += 1;
                    });
                    env.add(St::iterator_steps, n);
                });
                if r.chance(1, 4) {
                    step(may, || {
                        h.m.dbg(r.below(10));
                    });
                }
                continue;
            }
            17 | 18 => {
                let (m, md) = (&mut h.m, &mut h.md);
                p = step(may, || {
                    let mut held: Vec<(&K, &mut V)> = vec![];
                    let mut it = m.iter_mut();
                    let early = r.chance(1, 2);
                    drain(&mut it, r, |(k, x)| {
                        x.id();
                        x.poke(v);
                        // a reference in use is good while the iterator goes on
                        if let Some((_, y)) = held.last_mut() {
                            y.poke(v)
                        }
                        held.push((k, x))
                    });
                    if early {
                        drop(it)
                    }
                    if held.len() > 1 {
                        let (a, b) = held.split_at_mut(1);
                        std::mem::swap(a[0].1, b[0].1);
                    }
                    env.add(St::iterator_steps, held.len() as u64);
                    for (k, x) in held {
                        x.poke(v + 1);
                        md.insert(k.id(), vn(v + 1));
                    }
                });
            }
            19..=21 => {
                let m = if r.chance(1, 2) {
                    h.m.clone()
                } else {
                    h.md.clear();
                    h.known = K::SANE;
                    std::mem::replace(&mut h.m, M::new())
                };
                let others: usize = r.below(2);
                if others == 1 && pool.len() > 1 {
                    // the other owners may go while the iterator lives
                    let j = r.below(pool.len());
                    let x = pool.swap_remove(j);
                    let mut it = m.into_iter();
                    let mut held = vec![];
                    step(may, || drain(&mut it, r, |x| held.push(x)));
                    step(may, || drop(x));
                    step(may, || drain(&mut it, r, |x| held.push(x)));
                    step(may, || drop(it));
                    env.add(St::iterator_steps, held.len() as u64);
                    step(may, || drop(held));
                    continue;
                }
                let mut n = 0;
                step(may, || {
                    let mut held = vec![];
                    if M::FULL && r.chance(1, 3) {
                        if r.chance(1, 2) {
                            drain(&mut m.into_keys(), r, |x| n += 1 + x.id() as u64 * 0);
                        } else {
                            drain(&mut m.into_values(), r, |x| n += 1 + x.id() as u64 * 0);
                        }
                        return;
                    }
                    let keep = r.chance(1, 2);
                    let mut it = m.into_iter();
                    drain(&mut it, r, |x| {
                        x.0.id();
                        x.1.id();
                        n += 1;
                        if keep {
                            held.push(x)
                        }
                    });
                    if r.chance(1, 2) {
                        drop(held);
                        drop(it);
                    }
                });
                env.add(St::iterator_steps, n);
                continue;
            }
            22 => {
                p = step(may, || h.m.clear());
                h.md.clear();
                if p {
                    p = step(may, || h.m.clear());
                } else {
                    h.known = K::SANE;
                }
            }
            23 => {
                let kv: Vec<(K, V)> = (0..r.below(20)).map(|j| (K::mk((k + 3 * j as u32) % uni as u32), V::mk(v))).collect();
                kv.iter().for_each(|(k, v)| {
                    h.md.insert(k.id(), v.id());
                });
                p = step(may, || h.m.extend(kv));
            }
            24 => {
                let mut md = Md::new();
                let kv: Vec<(K, V)> = (0..r.below(uni.min(60))).map(|_| (K::mk(r.below(uni) as u32), V::mk(v))).collect();
                kv.iter().for_each(|(k, v)| {
                    md.insert(k.id(), v.id());
                });
                let mut new = None;
                step(may, || new = Some(M::from_vec(kv)));
                if let Some(m) = new {
                    let old = std::mem::replace(h, H { m, md, known: K::SANE });
                    step(may, || drop(old));
                }
                continue;
            }
            25 => {
                if pool.len() > 1 {
                    let x = pool.swap_remove(i);
                    step(may, || drop(x));
                }
                continue;
            }
            26 => expect(!h.known || h.m.len() == h.md.len(), "len"),
            27 => {
                let j = (i + 1) % pool.len();
                if i != j {
                    let (a, b) = crate::maps::two(&mut pool, i, j);
                    let q = step(may, || a.m.clone_from(&b.m));
                    a.md = b.md.clone();
                    a.known = b.known && !q;
                }
                continue;
            }
            28 | 29 => {
                p = step(may, || {
                    let last = op == 29;
                    let got = h.m.pop(last).map(|(a, b)| (a.id(), b.id()));
                    let want = if last { h.md.pop_last() } else { h.md.pop_first() };
                    expect(!h.known || got == want, "pop's result");
                })
            }
            30 => {
                step(may, || {
                    std::hint::black_box(h.m.ends() ^ h.m.probe(&K::mk(k)));
                });
            }
            31 | 32 => {
                p = step(may, || {
                    let at = *r.pick(&[None, None, Some(true), Some(false)]);
                    let eop = *r.pick(&[EOp::Insert, EOp::With, EOp::WithKey]);
                    if let Some((key, x)) = h.m.entry(at, k, r.chance(1, 2), eop, v) {
                        x.id();
                        x.poke(v + 2);
                        h.md.insert(key, vn(v + 2));
                    }
                })
            }
            33 => {
                let b = range_of::<K>(r, k, r.clone().below(uni) as u32);
                // may panic about the bounds
                step(true, || {
                    let mut held = vec![];
                    drain(&mut h.m.range(b), r, |x| held.push(x));
                    held.iter().for_each(|(k, v)| {
                        std::hint::black_box(k.id() ^ v.id());
                    });
                });
                continue;
            }
            34 | 35 => {
                let b = range_of::<K>(r, k, r.clone().below(uni) as u32);
                let mut touched = vec![];
                let m = &mut h.m;
                let q = step(true, || {
                    let mut held: Vec<(&K, &mut V)> = vec![];
                    let mut it = m.range_mut(b);
                    drain(&mut it, r, |(k, x)| {
                        x.id();
                        x.poke(v);
                        if let Some((_, y)) = held.last_mut() {
                            y.poke(v)
                        }
                        touched.push(k.id());
                        held.push((k, x))
                    });
                    if r.chance(1, 2) {
                        drop(it)
                    }
                    if held.len() > 1 {
                        let (a, b) = held.split_at_mut(1);
                        std::mem::swap(a[0].1, b[0].1);
                    }
                    for (_, x) in held {
                        x.poke(v)
                    }
                });
                for k in touched {
                    h.md.insert(k, vn(v));
                }
                p = q && may;
            }
            36 => {
                let j = (i + 1) % pool.len();
                if i != j {
                    let (a, b) = crate::maps::two(&mut pool, i, j);
                    let q = step(may, || a.m.append(&mut b.m));
                    a.md.append(&mut b.md);
                    a.known &= b.known && !q;
                    b.known = K::SANE && !q;
                }
                continue;
            }
            37 => {
                let mut o = None;
                p = step(may, || o = Some(h.m.split_off(&K::mk(k))));
                let md = h.md.split_off(&K::norm(k));
                let known = h.known;
                h.known &= !p;
                if let Some(m) = o {
                    if pool.len() < 6 {
                        pool.push(H { m, md, known })
                    } else {
                        step(may, || drop(m));
                    }
                }
                p = false;
            }
            38 => {
                let m = r.range(2, 4) as u32;
                p = step(may, || {
                    h.m.retain(&mut |k, x| {
                        x.poke(v);
                        k.id() % m != 0
                    })
                });
                h.md.retain(|k, x| {
                    *x = vn(v);
                    *k % m != 0
                });
            }
            39 => {
                p = step(may, || {
                    h.m.walk(r.below(30));
                })
            }
            40 => {
                let j = r.below(pool.len());
                let (a, b) = (&pool[i], &pool[j]);
                let mut e = false;
                let q = step(may, || e = a.m.same(&b.m));
                if !q && a.known && b.known && e != (a.md == b.md) {
                    bad = Some("equality".into());
                }
            }
            41..=45 => {
                let j = r.below(pool.len());
                let (am, bm) = (pool[i].m.clone(), pool[j].m.clone());
                let (mut ad, mut bd) = (pool[i].md.clone(), pool[j].md.clone());
                let mut known = pool[i].known && pool[j].known;
                if r.chance(1, 2) {
                    // hand over the nodes: the original goes first
                    let x = std::mem::replace(&mut pool[i], H { m: M::new(), md: Md::new(), known: K::SANE });
                    step(may, || drop(x));
                }
                let mut res = None;
                if op == 45 {
                    // a pivot between two parts of one map
                    let mut am = am;
                    drop(bm);
                    let kk = K::norm(k);
                    step(may, || {
                        am.remove(&K::mk(k));
                        let hi = am.split_off(&K::mk(k));
                        res = Some(M::join(am, K::mk(k), V::mk(v), hi));
                    });
                    ad.insert(kk, vn(v));
                    known = pool[i].known && known;
                } else {
                    step(may, || res = Some(M::bin(am, bm, op as u32 - 41)));
                    match op {
                        41 => ad.append(&mut bd),
                        42 => ad.retain(|k, _| bd.contains_key(k)),
                        43 => ad.retain(|k, _| !bd.contains_key(k)),
                        _ => {
                            let both: Vec<u32> = ad.keys().filter(|k| bd.contains_key(k)).copied().collect();
                            ad.append(&mut bd);
                            both.iter().for_each(|k| {
                                ad.remove(k);
                            });
                        }
                    }
                }
                if let Some(m) = res {
                    let old = std::mem::replace(&mut pool[i], H { m, md: ad, known });
                    step(may, || drop(old));
                }
                continue;
            }
            46 => {
                p = step(may, || {
                    h.m.each();
                })
            }
            _ => {
                p = step(may, || {
                    let got = h.m.remove_entry(&K::mk(k)).map(|(a, b)| (a.id(), b.id()));
                    let kk = K::norm(k);
                    expect(!h.known || got == h.md.remove(&kk).map(|v| (kk, v)), "remove_entry's result");
                })
            }
        }
        FUSE.with(|x| x.set(0));
        if p {
            env.add(St::panics, 1);
            pool[i].known = false;
        }
        if let Some(b) = bad {
            return Err(format!("{b} (key {k})"));
        }
        if r.chance(1, if cfg!(miri) { 40 } else { 16 }) {
            check_maps(&pool)?;
        }
    }
    check_maps(&pool)?;
    while !pool.is_empty() {
        let x = pool.swap_remove(r.below(pool.len()));
        env.arm(r);
        step(may, || drop(x));
    }
    Ok(())
}
fn check_maps<K: Key, V: El + Ord, M: Lm<K, V>>(pool: &[H<M, Md>]) -> Result<(), String> {
    FUSE.with(|x| x.set(0));
    for (j, h) in pool.iter().enumerate() {
        let mut got = vec![];
        let _ = step(!K::SANE, || got = h.m.iter().take(3000).map(|(k, v)| (k.id(), v.id())).collect());
        if h.known && !got.iter().copied().eq(h.md.iter().map(|(k, v)| (*k, *v))) {
            return Err(format!("handle {j} holds {:?}, expected {:?}", &got[..got.len().min(40)], h.md.iter().take(40).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- sets
type Sd = std::collections::BTreeSet<u32>;
macro_rules! set_history {
    ($fname:ident, $S:ty, $name:expr, $It:ident, [$($g:tt)*]) => {
        fn $fname<T: Key $($g)*>(r: &mut Rng, env: &mut Env, ops: usize) -> Result<(), String> {
            let may = env.panics || !T::SANE;
            let uni = pick_size(r);
            doing(|| format!("{}<{}> over {uni} elements{}", $name, T::NAME, if env.panics { ", with panics" } else { "" }));
            env.add(St::histories, 1);
            let mut pool: Vec<H<$S, Sd>> = vec![H { m: <$S>::new(), md: Sd::new(), known: T::SANE }];
            for _ in 0..ops {
                let i = r.below(pool.len());
                let k = r.below(uni) as u32;
                env.add(St::operations, 1);
                let op = r.below(31);
                doing(|| format!("op {op} on set {i}, element {k}"));
                let h = &mut pool[i];
                let mut bad: Option<String> = None;
                let mut expect = |ok: bool, what: &str| {
                    if !ok {
                        bad = Some(what.to_string())
                    }
                };
                env.arm(r);
                let mut p = false;
                match op {
                    0..=4 => p = step(may, || expect(h.m.insert(T::mk(k)) == h.md.insert(T::norm(k)) || !h.known, "insert's result")),
                    5 => p = step(may, || {
                        for j in 0..r.range(1, 12) as u32 {
                            h.m.insert(T::mk(k + j));
                            h.md.insert(T::norm(k + j));
                        }
                    }),
                    6..=8 => p = step(may, || expect(h.m.remove(&T::mk(k)) == h.md.remove(&T::norm(k)) || !h.known, "remove's result")),
                    9 => p = step(may, || {
                        let got = h.m.take(&T::mk(k)).map(|x| x.id());
                        expect(got == h.md.take(&T::norm(k)) || !h.known, "take's result")
                    }),
                    10 => p = step(may, || {
                        let got = h.m.replace(T::mk(k)).map(|x| x.id());
                        expect(got == h.md.replace(T::norm(k)) || !h.known, "replace's result")
                    }),
                    11 => p = step(may, || {
                        let kk = T::mk(k);
                        h.m.contains(&kk);
                        h.m.get(&kk).map(|x| x.id());
                        h.m.first().map(|x| x.id());
                        h.m.last().map(|x| x.id());
                    }),
                    12 => p = step(may, || {
                        let last = r.chance(1, 2);
                        let got = if last { h.m.pop_last() } else { h.m.pop_first() }.map(|x| x.id());
                        let want = if last { h.md.pop_last() } else { h.md.pop_first() };
                        expect(got == want || !h.known, "pop's result")
                    }),
                    13..=15 => {
                        let (m, md, known) = (h.m.clone(), h.md.clone(), h.known);
                        env.add(St::clones, 1);
                        let x = H { m, md, known };
                        if pool.len() >= 5 {
                            let j = r.below(pool.len());
                            let old = std::mem::replace(&mut pool[j], x);
                            step(may, || drop(old));
                        } else {
                            pool.push(x)
                        }
                        continue;
                    }
                    16 => {
                        step(may, || {
                            let mut held = vec![];
                            let mut it: BIt<'_, &T> = Box::new($It(h.m.iter()));
                            drain(&mut it, r, |x| held.push(x));
                            held.iter().for_each(|x| { x.id(); });
                            env.add(St::iterator_steps, held.len() as u64);
                        });
                        continue;
                    }
                    17 | 18 => {
                        let m = if r.chance(1, 2) { h.m.clone() } else { h.md.clear(); h.known = T::SANE; std::mem::take(&mut h.m) };
                        step(may, || {
                            let mut held = vec![];
                            let mut it: BIt<'_, T> = Box::new($It(m.into_iter()));
                            drain(&mut it, r, |x| { x.id(); held.push(x) });
                            env.add(St::iterator_steps, held.len() as u64);
                        });
                        continue;
                    }
                    19 => {
                        let b = range_of::<T>(r, k, r.clone().below(uni) as u32);
                        step(true, || {
                            let mut held = vec![];
                            let mut it: BIt<'_, &T> = Box::new(Both(h.m.range::<T, _>(b)));
                            drain(&mut it, r, |x| held.push(x));
                            held.iter().for_each(|x| { x.id(); });
                        });
                        continue;
                    }
                    20 => {
                        p = step(may, || h.m.clear());
                        h.md.clear();
                        if p { p = step(may, || h.m.clear()) } else { h.known = T::SANE }
                    }
                    21 => {
                        let xs: Vec<T> = (0..r.below(30)).map(|j| T::mk((k + 5 * j as u32) % uni as u32)).collect();
                        h.md.extend(xs.iter().map(|x| x.id()));
                        if r.chance(1, 2) {
                            p = step(may, || h.m.extend(Hinted::auto(xs.into_iter())));
                        } else {
                            p = step(may, || h.m.extend(Hinted::auto(xs.iter())));
                        }
                    }
                    22 => {
                        let j = (i + 1) % pool.len();
                        if i != j {
                            let (a, b) = crate::maps::two(&mut pool, i, j);
                            let q = step(may, || a.m.append(&mut b.m));
                            a.md.append(&mut b.md);
                            a.known &= b.known && !q;
                            b.known = T::SANE && !q;
                        }
                        continue;
                    }
                    23 => {
                        let mut o = None;
                        p = step(may, || o = Some(h.m.split_off(&T::mk(k))));
                        let md = h.md.split_off(&T::norm(k));
                        let known = h.known;
                        h.known &= !p;
                        p = false;
                        if let Some(m) = o {
                            if pool.len() < 6 { pool.push(H { m, md, known }) } else { step(may, || drop(m)); }
                        }
                    }
                    24 => {
                        let m = r.range(2, 4) as u32;
                        p = step(may, || h.m.retain(|x| x.id() % m != 0));
                        h.md.retain(|x| *x % m != 0);
                    }
                    25 | 26 => {
                        let j = r.below(pool.len());
                        let (a, b) = (&pool[i], &pool[j]);
                        let known = a.known && b.known;
                        let which = r.below(5);
                        let mut got = vec![];
                        let mut flags = (false, false, false);
                        let q = step(may, || {
                            let mut held: Vec<&T> = vec![];
                            let n = if r.chance(1, 3) { r.below(8) } else { usize::MAX };
                            match which {
                                0 => held.extend(a.m.union(&b.m).take(n)),
                                1 => held.extend(a.m.intersection(&b.m).take(n)),
                                2 => held.extend(a.m.difference(&b.m).take(n)),
                                3 => held.extend(a.m.symmetric_difference(&b.m).take(n)),
                                _ => flags = (a.m.is_subset(&b.m), a.m.is_superset(&b.m), a.m.is_disjoint(&b.m)),
                            }
                            if n == usize::MAX {
                                got.extend(held.iter().map(|x| x.id()));
                            } else {
                                got = vec![u32::MAX];
                            }
                        });
                        if known && !q && got != [u32::MAX] {
                            let (x, y) = (&a.md, &b.md);
                            let want: Vec<u32> = match which {
                                0 => x.union(y).copied().collect(),
                                1 => x.intersection(y).copied().collect(),
                                2 => x.difference(y).copied().collect(),
                                3 => x.symmetric_difference(y).copied().collect(),
                                _ => vec![],
                            };
                            if got != want || (which == 4 && flags != (x.is_subset(y), x.is_superset(y), x.is_disjoint(y))) {
                                return Err(format!("set operation {which} gave {got:?} {flags:?}, expected {want:?}"));
                            }
                        }
                        continue;
                    }
                    27 | 28 => {
                        let j = r.below(pool.len());
                        let which = r.below(4);
                        let (a, b) = (&pool[i], &pool[j]);
                        let (x, y) = (&a.md, &b.md);
                        let md: Sd = match which { 0 => x | y, 1 => x & y, 2 => x - y, _ => x ^ y };
                        let known = a.known && b.known;
                        let mut res = None;
                        if op == 27 {
                            step(may, || res = Some(match which { 0 => &a.m | &b.m, 1 => &a.m & &b.m, 2 => &a.m - &b.m, _ => &a.m ^ &b.m }));
                        } else {
                            let (am, bm) = (a.m.clone(), b.m.clone());
                            if r.chance(1, 2) {
                                let x = std::mem::replace(&mut pool[i], H { m: <$S>::new(), md: Sd::new(), known: T::SANE });
                                step(may, || drop(x));
                            }
                            step(may, || res = Some(match which {
                                0 => <$S>::new_union(am, bm),
                                1 => <$S>::new_intersection(am, bm),
                                2 => <$S>::new_diff(am, bm),
                                _ => <$S>::new_sym_diff(am, bm),
                            }));
                        }
                        if let Some(m) = res {
                            let old = std::mem::replace(&mut pool[i], H { m, md, known });
                            step(may, || drop(old));
                        }
                        continue;
                    }
                    29 => {
                        let j = r.below(pool.len());
                        let (a, b) = (&pool[i], &pool[j]);
                        let mut e = false;
                        let q = step(may, || {
                            e = a.m == b.m;
                            std::hint::black_box((a.m.cmp(&b.m), a.m.partial_cmp(&b.m), format!("{:?}", a.m), crate::hash64(&a.m)));
                        });
                        if !q && a.known && b.known && e != (a.md == b.md) {
                            bad = Some("equality".into());
                        }
                    }
                    _ => {
                        if pool.len() > 1 {
                            let x = pool.swap_remove(i);
                            step(may, || drop(x));
                        }
                        continue;
                    }
                }
                FUSE.with(|x| x.set(0));
                if p {
                    env.add(St::panics, 1);
                    pool[i].known = false;
                }
                if let Some(b) = bad {
                    return Err(format!("{b} (element {k})"));
                }
                if r.chance(1, if cfg!(miri) { 40 } else { 16 }) {
                    chk_sets(&pool, |h, v| *v = h.m.iter().take(3000).map(|x| x.id()).collect(), T::SANE)?;
                }
            }
            chk_sets(&pool, |h, v| *v = h.m.iter().take(3000).map(|x| x.id()).collect(), T::SANE)?;
            while !pool.is_empty() {
                let x = pool.swap_remove(r.below(pool.len()));
                env.arm(r);
                step(may, || drop(x));
            }
            Ok(())
        }
    };
}
fn chk_sets<S>(pool: &[H<S, Sd>], list: impl Fn(&H<S, Sd>, &mut Vec<u32>), sane: bool) -> Result<(), String> {
    FUSE.with(|x| x.set(0));
    for (j, h) in pool.iter().enumerate() {
        let mut got = vec![];
        step(!sane, || list(h, &mut got));
        if h.known && !got.iter().eq(h.md.iter()) {
            return Err(format!("set {j} holds {:?}, expected {:?}", &got[..got.len().min(40)], h.md.iter().take(40).collect::<Vec<_>>()));
        }
    }
    Ok(())
}
set_history!(avl_sets, AvlSet<T>, "AvlSet", Fwd, []);
set_history!(b1_sets, BTreeSet<T, 1>, "BTreeSet<1>", Both, []);
set_history!(b2_sets, BTreeSet<T, 2>, "BTreeSet<2>", Both, []);
set_history!(b5_sets, BTreeSet<T, 5>, "BTreeSet<5>", Both, []);

// ---------------------------------------------------------------- stacks
fn stacks<T: El + PartialEq + Ord>(r: &mut Rng, env: &mut Env, ops: usize) -> Result<(), String> {
    let may = env.panics;
    doing(|| format!("Stack<{}>{}", T::NAME, if env.panics { ", with panics" } else { "" }));
    env.add(St::histories, 1);
    let mut pool: Vec<H<Stack<T>, Vec<u32>>> = vec![H { m: Stack::new(), md: vec![], known: true }];
    for _ in 0..ops {
        let i = r.below(pool.len());
        let v = r.below(1 << 16) as u32;
        env.add(St::operations, 1);
        let op = r.below(24);
        doing(|| format!("op {op} on stack {i}, value {v}"));
        let h = &mut pool[i];
        let mut bad: Option<String> = None;
        let mut expect = |ok: bool, what: &str| {
            if !ok {
                bad = Some(what.to_string())
            }
        };
        env.arm(r);
        let mut p = false;
        match op {
            0..=4 => {
                p = step(may, || {
                    for j in 0..r.range(1, 4) as u32 {
                        h.m.push(T::mk(v + j));
                        h.md.push(T::norm(v + j));
                    }
                })
            }
            5..=7 => {
                p = step(may, || {
                    let got = h.m.pop().map(|x| x.id());
                    expect(got == h.md.pop() || !h.known, "pop's result")
                })
            }
            8 => {
                p = step(may, || {
                    if let Some(x) = h.m.top_mut() {
                        x.id();
                        x.poke(v);
                        if let Some(x) = h.md.last_mut() {
                            *x = T::norm(v)
                        }
                    }
                    h.m.top().map(|x| x.id());
                })
            }
            9 | 10 => {
                let n = h.m.len();
                if n > 0 {
                    let at = r.below(n);
                    p = step(may, || {
                        let got = h.m.remove(at).id();
                        expect(!h.known || got == h.md.remove(at), "remove's result")
                    })
                } else {
                    step(true, || drop(h.m.remove(0)));
                }
            }
            11 => {
                let at = r.below(h.m.len() + 1);
                let mut o = None;
                p = step(may, || o = Some(h.m.split_off(at)));
                if let Some(m) = o {
                    let known = h.known;
                    let md = if known { h.md.split_off(at) } else { vec![] };
                    if pool.len() < 6 {
                        pool.push(H { m, md, known })
                    } else {
                        step(may, || drop(m));
                    }
                }
            }
            12..=14 => {
                let x = H { m: h.m.clone(), md: h.md.clone(), known: h.known };
                env.add(St::clones, 1);
                if pool.len() >= 5 {
                    let j = r.below(pool.len());
                    let old = std::mem::replace(&mut pool[j], x);
                    step(may, || drop(old));
                } else {
                    pool.push(x)
                }
                continue;
            }
            15 => {
                p = step(may, || h.m.clear());
                h.md.clear();
                if p {
                    p = step(may, || h.m.clear())
                } else {
                    h.known = true
                }
            }
            16 => {
                let xs: Vec<T> = (0..r.below(20) as u32).map(|j| T::mk(v + j)).collect();
                h.md.extend(xs.iter().map(|x| x.id()));
                p = step(may, || h.m.extend(Hinted::auto(xs.into_iter())));
            }
            17 | 18 => {
                let (m, md) = (&mut h.m, &mut h.md);
                let len = md.len();
                p = step(may, || {
                    let mut held: Vec<&mut T> = vec![];
                    let n = if r.chance(1, 2) { usize::MAX } else { r.below(12) };
                    for x in m.iter_mut().take(n) {
                        x.id();
                        x.poke(v);
                        if let Some(y) = held.last_mut() {
                            y.poke(v)
                        }
                        held.push(x);
                    }
                    if held.len() > 1 {
                        let (a, b) = held.split_at_mut(1);
                        std::mem::swap(a[0], b[0]);
                    }
                    let n = held.len().min(len);
                    env.add(St::iterator_steps, n as u64);
                    for x in held {
                        x.poke(v + 1)
                    }
                    md[len - n..].iter_mut().for_each(|x| *x = T::norm(v + 1));
                })
            }
            19 | 20 => {
                let m = if r.chance(1, 2) {
                    h.m.clone()
                } else {
                    h.md.clear();
                    h.known = true;
                    std::mem::take(&mut h.m)
                };
                step(may, || {
                    let mut held = vec![];
                    let mut it: BIt<'_, T> = Box::new(Fwd(m.into_iter()));
                    drain(&mut it, r, |x| {
                        x.id();
                        held.push(x)
                    });
                    env.add(St::iterator_steps, held.len() as u64);
                });
                continue;
            }
            21 => {
                let j = r.below(pool.len());
                let (a, b) = (&pool[i], &pool[j]);
                let mut e = false;
                let q = step(may, || {
                    e = a.m == b.m;
                    std::hint::black_box((a.m.cmp(&b.m), a.m.partial_cmp(&b.m), format!("{:?}", a.m), a.m.contains(&T::mk(v))));
                });
                if !q && a.known && b.known && e != (a.md == b.md) {
                    bad = Some("equality".into());
                }
            }
            22 => {
                step(may, || {
                    let held: Vec<&T> = h.m.iter().take(20).collect();
                    held.iter().for_each(|x| {
                        x.id();
                    });
                });
            }
            _ => {
                if pool.len() > 1 {
                    let x = pool.swap_remove(i);
                    step(may, || drop(x));
                }
                continue;
            }
        }
        FUSE.with(|x| x.set(0));
        if p {
            env.add(St::panics, 1);
            pool[i].known = false;
        }
        if let Some(b) = bad {
            return Err(format!("{b} (value {v})"));
        }
        if r.chance(1, if cfg!(miri) { 40 } else { 16 }) {
            chk_stacks(&pool)?;
        }
    }
    chk_stacks(&pool)?;
    while !pool.is_empty() {
        let x = pool.swap_remove(r.below(pool.len()));
        env.arm(r);
        step(may, || drop(x));
    }
    Ok(())
}
fn chk_stacks<T: El>(pool: &[H<Stack<T>, Vec<u32>>]) -> Result<(), String> {
    FUSE.with(|x| x.set(0));
    for (j, h) in pool.iter().enumerate() {
        let mut got: Vec<u32> = h.m.iter().take(3000).map(|x| x.id()).collect();
        got.reverse();
        if h.known && got != h.md {
            return Err(format!("stack {j} holds {got:?}, expected {:?}", h.md));
        }
    }
    Ok(())
}


/// Few, long steps on maps of more than one level of branches, so that branches are split, merged and rotated too, also under Miri.
fn tall<K: Key, V: El + Ord, M: Lm<K, V>>(r: &mut Rng, env: &mut Env, ops: usize) -> Result<(), String> {
    let may = env.panics || !K::SANE;
    let n = r.range(75, 130) as u32;
    let order = r.below(4);
    doing(|| format!("tall {}<{}, {}> of {n} keys, order {order}{}", M::NAME, K::NAME, V::NAME, if env.panics { ", with panics" } else { "" }));
    env.add(St::histories, 1);
    let mut h = H { m: M::new(), md: Md::new(), known: K::SANE };
    let vn = V::norm;
    // keys that come one after the other, with gaps in which later ones fit
    let key = |i: u32| match order {
        0 => 2 * i,
        1 => 2 * (n - i),
        2 => 2 * (i * 37 % 131),
        _ => 2 * (if i % 2 == 0 { n + i } else { n - i }),
    };
    for i in 0..n {
        h.m.insert(K::mk(key(i)), V::mk(i));
        h.md.insert(K::norm(key(i)), vn(i));
    }
    let mut pool = vec![h];
    for _ in 0..ops {
        let i = r.below(pool.len());
        let (k, v, run) = (r.below(2 * n as usize) as u32, r.below(1 << 16) as u32, r.range(8, 30) as u32);
        let (up, by) = (r.chance(1, 2), r.range(1, 3) as u32);
        let at = |j: u32| if up { k + by * j } else { k.saturating_sub(by * j) };
        env.add(St::operations, 1);
        let op = r.below(12);
        doing(|| format!("op {op} on handle {i}, key {k}, run {run}, up {up}, by {by}"));
        let h = &mut pool[i];
        let mut bad = None;
        let mut p = false;
        match op {
            0..=3 => {
                for j in 0..run {
                    env.arm(r);
                    p |= step(may, || {
                        let got = h.m.remove(&K::mk(at(j))).map(|x| x.id());
                        if h.known && got != h.md.remove(&K::norm(at(j))) {
                            bad = Some("remove's result");
                        }
                    });
                    h.known &= !p;
                }
            }
            4 | 5 => {
                for j in 0..run {
                    env.arm(r);
                    p |= step(may, || {
                        let got = h.m.insert(K::mk(at(j)), V::mk(v + j)).map(|x| x.id());
                        if h.known && got != h.md.insert(K::norm(at(j)), vn(v + j)) {
                            bad = Some("insert's result");
                        }
                    });
                    h.known &= !p;
                }
            }
            6 => {
                env.add(St::clones, 1);
                let x = H { m: h.m.clone(), md: h.md.clone(), known: h.known };
                if pool.len() >= 3 {
                    pool[i] = x;
                } else {
                    pool.push(x);
                }
                continue;
            }
            7 => {
                for j in 0..5 {
                    env.arm(r);
                    p |= step(may, || {
                        if let Some(x) = h.m.get_mut(&K::mk(at(j))) {
                            x.poke(v);
                            if let Some(x) = h.md.get_mut(&K::norm(at(j))) {
                                *x = vn(v)
                            }
                        }
                    });
                    h.known &= !p;
                }
            }
            8 => {
                let (m, md) = (&mut h.m, &mut h.md);
                env.arm(r);
                p = step(may, || {
                    let mut held = vec![];
                    let mut it = m.iter_mut();
                    for j in 0..run {
                        held.extend(if (j + k) % 3 == 0 { it.back() } else { it.next() });
                    }
                    env.add(St::iterator_steps, held.len() as u64);
                    for (k, x) in held {
                        x.poke(v);
                        md.insert(k.id(), vn(v));
                    }
                });
            }
            9 => {
                let m = h.m.clone();
                env.add(St::clones, 1);
                env.arm(r);
                step(may, || {
                    let mut it = m.into_iter();
                    let mut held = vec![];
                    for j in 0..run {
                        held.extend(if (j + k) % 3 == 0 { it.back() } else { it.next() });
                    }
                    env.add(St::iterator_steps, held.len() as u64);
                });
                continue;
            }
            10 => {
                // consumed, and built anew from what came out
                let m = std::mem::replace(&mut h.m, M::new());
                let (old, was) = (std::mem::take(&mut h.md), h.known);
                let mut held = vec![];
                env.arm(r);
                p = step(may, || {
                    let mut it = m.into_iter();
                    for j in 0..run {
                        held.extend(if (j + k) % 2 == 0 { it.back() } else { it.next() });
                    }
                    drop(it);
                });
                env.add(St::iterator_steps, held.len() as u64);
                if was && !p && held.iter().any(|(k, v)| old.get(&k.id()) != Some(&v.id())) {
                    return Err("a consuming iterator yields what was not there".into());
                }
                env.arm(r);
                p |= step(may, || {
                    for (k, v) in held {
                        let (a, b) = (k.id(), v.id());
                        h.m.insert(k, v);
                        h.md.insert(a, b);
                    }
                });
            }
            _ => {
                if pool.len() > 1 {
                    let x = pool.swap_remove(i);
                    step(may, || drop(x));
                }
                continue;
            }
        }
        FUSE.with(|x| x.set(0));
        if p {
            env.add(St::panics, 1);
            pool[i].known = false;
        }
        if let Some(b) = bad {
            return Err(format!("{b} (key {k})"));
        }
    }
    FUSE.with(|x| x.set(0));
    for (j, h) in pool.iter().enumerate() {
        let got: Vec<(u32, u32)> = h.m.iter().take(2000).map(|(k, v)| (k.id(), v.id())).collect();
        if h.known && !got.iter().copied().eq(h.md.iter().map(|(k, v)| (*k, *v))) {
            return Err(format!("map {j} holds {got:?}, expected {:?}", h.md));
        }
    }
    while !pool.is_empty() {
        let x = pool.swap_remove(r.below(pool.len()));
        env.arm(r);
        step(may, || drop(x));
    }
    Ok(())
}
fn tall_case(idx: u64, r: &mut Rng, env: &mut Env, ops: usize) -> Result<(), String> {
    use lcc::btree::{fixed, BTreeMap};
    if env.panics {
        return match idx % 4 {
            0 => tall::<Fuse, Fuse, AvlMap<Fuse, Fuse>>(r, env, ops),
            1 => tall::<Fuse, Fuse, BTreeMap<Fuse, Fuse, 1>>(r, env, ops),
            _ => tall::<Fuse, Fuse, fixed::BTreeMap<Fuse, Fuse>>(r, env, ops),
        };
    }
    match idx % 8 {
        0 => tall::<u32, Box<u32>, fixed::BTreeMap<u32, Box<u32>>>(r, env, ops),
        1 => tall::<Box<u32>, u32, fixed::BTreeMap<Box<u32>, u32>>(r, env, ops),
        2 => tall::<(u8, u32), [u64; 9], fixed::BTreeMap<(u8, u32), [u64; 9]>>(r, env, ops),
        3 => tall::<u32, Box<u32>, AvlMap<u32, Box<u32>>>(r, env, ops),
        4 => tall::<Option<Box<u32>>, (), fixed::BTreeMap<Option<Box<u32>>, ()>>(r, env, ops),
        5 => tall::<u32, Box<u32>, BTreeMap<u32, Box<u32>, 1>>(r, env, ops),
        6 => tall::<Liar, Box<u32>, fixed::BTreeMap<Liar, Box<u32>>>(r, env, ops),
        _ => tall::<String, Rc<String>, fixed::BTreeMap<String, Rc<String>>>(r, env, ops),
    }
}

// ---------------------------------------------------------------- cases
/// Compiling every map for every pair of types takes minutes, so outside the interpreter only some pairs go through all of them.
macro_rules! map_types {
    (all $K:ty, $V:ty; $r:ident, $env:ident, $ops:ident) => {{
        use lcc::btree::{fixed, BTreeMap};
        match $r.below(8) {
            0 | 1 => maps::<$K, $V, AvlMap<$K, $V>>($r, $env, $ops),
            2 => maps::<$K, $V, BTreeMap<$K, $V, 1>>($r, $env, $ops),
            3 => maps::<$K, $V, BTreeMap<$K, $V, 2>>($r, $env, $ops),
            4 => maps::<$K, $V, BTreeMap<$K, $V, 5>>($r, $env, $ops),
            _ => maps::<$K, $V, fixed::BTreeMap<$K, $V>>($r, $env, $ops),
        }
    }};
    ($K:ty, $V:ty; $r:ident, $env:ident, $ops:ident) => {{
        #[cfg(miri)]
        {
            map_types!(all $K, $V; $r, $env, $ops)
        }
        #[cfg(not(miri))]
        {
            maps::<$K, $V, lcc::btree::fixed::BTreeMap<$K, $V>>($r, $env, $ops)
        }
    }};
}
fn set_types<T: Key>(r: &mut Rng, env: &mut Env, ops: usize) -> Result<(), String> {
    match r.below(5) {
        0 | 1 => avl_sets::<T>(r, env, ops),
        2 => b1_sets::<T>(r, env, ops),
        3 => b2_sets::<T>(r, env, ops),
        _ => b5_sets::<T>(r, env, ops),
    }
}

/// One history; an error is a violation.
/// Wrong answers and panics say nothing about memory by themselves: without injected panics they are only noted (`Soft`).
pub enum Bad {
    Soft(String),
    Hard(String),
}

pub fn case(seed: u64, idx: u64, ops: usize, env: &mut Env) -> Result<(), Bad> {
    let mut rng = Rng::derive(seed ^ 0x0b_0b, idx);
    let r = &mut rng;
    ZST.with(|z| z.set(0));
    FUSE.with(|x| x.set(0));
    LIE.with(|l| l.set(r.u64() as u32));
    let res = catch_unwind(AssertUnwindSafe(|| {
        if env.kind == 4 {
            return tall_case(idx, r, env, ops);
        }
        if env.panics {
            return match idx % 8 {
                0..=2 => map_types!(all Fuse, Fuse; r, env, ops),
                3 => map_types!(u32, Fuse; r, env, ops),
                4 => map_types!(Fuse, Al64; r, env, ops),
                5 => set_types::<Fuse>(r, env, ops),
                6 => map_types!(Liar, Fuse; r, env, ops),
                _ => stacks::<Fuse>(r, env, ops),
            };
        }
        let which = match env.kind {
            1 => [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 19, 20, 21][idx as usize % 17],
            2 => 14 + idx % 3,
            3 => 17 + idx % 2,
            _ => idx % 22,
        };
        match which {
            0 => map_types!(u8, u64; r, env, ops),
            1 => map_types!(all Box<u32>, String; r, env, ops),
            2 => map_types!(String, Box<u32>; r, env, ops),
            3 => map_types!(all Al64, Al64; r, env, ops),
            4 => map_types!(u32, (); r, env, ops),
            5 => map_types!(all u64, ZDrop; r, env, ops),
            6 => match r.below(3) {
                0 => map_types!((), Box<u32>; r, env, ops),
                1 => map_types!(AlZ, AlZ; r, env, ops),
                _ => map_types!(ZDrop, ZDrop; r, env, ops),
            },
            7 => map_types!(u32, Cell<u32>; r, env, ops),
            8 => map_types!(char, RefCell<Vec<u32>>; r, env, ops),
            9 => map_types!(NonZeroU32, Option<NonZeroU8>; r, env, ops),
            10 => map_types!(Option<Box<u32>>, Option<Box<u32>>; r, env, ops),
            11 => map_types!((u8, u32), [u64; 9]; r, env, ops),
            12 => map_types!(all Liar, Box<u32>; r, env, ops),
            13 => map_types!(Rc<u32>, Rc<String>; r, env, ops),
            14 => match r.below(5) {
                0 => set_types::<u8>(r, env, ops),
                1 => set_types::<ZDrop>(r, env, ops),
                2 => set_types::<Option<NonZeroU8>>(r, env, ops),
                3 => set_types::<bool>(r, env, ops),
                _ => set_types::<Al64>(r, env, ops),
            },
            15 => match r.below(3) {
                0 => set_types::<String>(r, env, ops),
                1 => set_types::<Liar>(r, env, ops),
                _ => set_types::<Vec<u8>>(r, env, ops),
            },
            16 => set_types::<Box<u32>>(r, env, ops),
            17 => match r.below(4) {
                0 => stacks::<()>(r, env, ops),
                1 => stacks::<ZDrop>(r, env, ops),
                2 => stacks::<(u32, u8, u16)>(r, env, ops),
                _ => stacks::<Al64>(r, env, ops),
            },
            18 => match r.below(3) {
                0 => stacks::<Box<u32>>(r, env, ops),
                1 => stacks::<Rc<String>>(r, env, ops),
                _ => stacks::<RefCell<Vec<u32>>>(r, env, ops),
            },
            19 => map_types!([u64; 9], &'static [u16]; r, env, ops),
            // one side owns memory, the other is plain
            20 => map_types!(all String, u32; r, env, ops),
            _ => map_types!(all u32, Box<u32>; r, env, ops),
        }
    }));
    FUSE.with(|x| x.set(0));
    match res {
        Ok(Ok(())) => {
            let z = ZST.with(|z| z.get());
            if z != 0 && !env.panics {
                return Err(Bad::Hard(format!("{z} more zero-sized elements created than dropped")));
            }
            Ok(())
        }
        Ok(Err(e)) if env.panics || env.answers => Err(Bad::Hard(e)),
        Ok(Err(e)) => Err(Bad::Soft(e)),
        Err(_) if env.panics || env.answers => Err(Bad::Hard(format!("panic: {}", panic_msg()))),
        Err(_) => Err(Bad::Soft(format!("panic: {}", panic_msg()))),
    }
}
