//! Collections that share parts, used by several threads at once.
//!
//! A case is a sequence of phases.  In each phase every thread owns some handles (each with its own std model) and may also see some
//! handles of the main thread by shared reference; it runs a stream of operations that depends on (case, phase, thread) only.  So every
//! answer is determined, whatever the schedule, and a case in which something is off is run again on one thread: what also happens
//! there is not a matter of threads.  Element identities live in a registry of relaxed atomics, which order nothing, so the race
//! detectors see the library's own synchronisation only.
use crate::rng::Rng;
use crate::run::{doing, panic_msg, Stats};
use lazy_clone_collections as lcc;
use lcc::btree::btree_set::BTreeSet;
use lcc::{btree, AvlMap, AvlSet};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap as Std;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};

// ---------------------------------------------------------------- registry
// the interpreter notices double drops and uses after drops by itself
const CAP: usize = if cfg!(miri) { 1 } else { 1 << 22 };
static STATE: [AtomicU8; CAP] = [const { AtomicU8::new(0) }; CAP];
static NEXT: AtomicU32 = AtomicU32::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static ERRS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static INFLIGHT: AtomicI64 = AtomicI64::new(0);
static TICKET: AtomicU64 = AtomicU64::new(0);

fn err(s: String) {
    let mut e = ERRS.lock().unwrap();
    if e.len() < 10 {
        e.push(s)
    }
}
fn create() -> u32 {
    let id = NEXT.fetch_add(1, Relaxed);
    if (id as usize) < CAP {
        STATE[id as usize].store(1, Relaxed);
    }
    LIVE.fetch_add(1, Relaxed);
    id
}
fn used(id: u32, what: &str) {
    match STATE.get(id as usize).map_or(1, |s| s.load(Relaxed)) {
        1 => (),
        2 => err(format!("{what} of an already dropped element")),
        _ => err(format!("{what} of an element that never existed")),
    }
}
fn dropped(id: u32) {
    LIVE.fetch_sub(1, Relaxed);
    if let Some(s) = STATE.get(id as usize) {
        match s.swap(2, Relaxed) {
            1 => (),
            2 => err("element dropped twice".into()),
            _ => err("drop of an element that never existed".into()),
        }
    }
}

thread_local! {
    static DELAY: Cell<u64> = const { Cell::new(0) };
    static DELAY_RATE: Cell<u32> = const { Cell::new(0) };
    static DELAYS: Cell<u64> = const { Cell::new(0) };
}
/// Inside the library's operations (in element code): now and then let the others run.
fn delay() {
    let rate = DELAY_RATE.with(|r| r.get());
    if rate == 0 {
        return;
    }
    let x = DELAY.with(|d| {
        let x = crate::rng::mix(d.get());
        d.set(x);
        x
    });
    if (x as u32) % rate != 0 {
        return;
    }
    DELAYS.with(|d| d.set(d.get() + 1));
    match (x >> 32) % 64 {
        0..=31 => std::thread::yield_now(),
        32 if !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros((x >> 40) % 30)),
        _ => {
            for _ in 0..(if cfg!(miri) { 2 } else { (x >> 40) % 300 }) {
                std::hint::spin_loop()
            }
        }
    }
}

pub struct Key {
    id: u32,
    k: Box<u32>,
}
impl Key {
    fn mk(k: u32) -> Key {
        Key { id: create(), k: Box::new(k) }
    }
}
impl Clone for Key {
    fn clone(&self) -> Self {
        used(self.id, "clone");
        delay();
        Key::mk(*self.k)
    }
}
impl Drop for Key {
    fn drop(&mut self) {
        dropped(self.id);
        delay();
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        used(self.id, "comparison");
        used(o.id, "comparison");
        delay();
        self.k.cmp(&o.k)
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.k.hash(h)
    }
}
impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.k)
    }
}
pub struct Val {
    id: u32,
    v: Box<u32>,
}
impl Val {
    fn mk(v: u32) -> Val {
        Val { id: create(), v: Box::new(v) }
    }
    fn get(&self) -> u32 {
        used(self.id, "read");
        *self.v
    }
    fn set(&mut self, v: u32) {
        used(self.id, "write");
        *self.v = v
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        used(self.id, "clone");
        delay();
        Val::mk(*self.v)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        dropped(self.id);
        delay();
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.get() == o.get()
    }
}
impl Eq for Val {}
impl PartialOrd for Val {
    fn partial_cmp(&self, o: &Val) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Val {
    fn cmp(&self, o: &Val) -> Ordering {
        self.get().cmp(&o.get())
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.get())
    }
}
impl Hash for Val {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}

// ---------------------------------------------------------------- operations
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Insert,
    Remove,
    Mutate,
    Fill,
    Drain,
    IterMut,
    OwnAll,
    OwnSome,
    OwnBack,
    Extend,
    CloneEdit,
    Clear,
    // maps only
    IterMutBack,
    // the rest not on the fixed-node map
    PopFirst,
    PopLast,
    Append,
    SplitOff,
    Retain,
    EqClone,
    // maps only
    Entry,
    RangeMut,
    // AVL map and sets
    Algebra,
    // read-only
    Get,
    Len,
    Iter,
    Range,
    Ends,
    Back,
    Show,
    // sets only, and only on maps and sets that have them
    Lazy,
}
use Op::*;
const READS: [Op; 11] = [Get, Get, Get, Len, Iter, Range, Range, Ends, Back, Show, Lazy];

type Model = Std<u32, u32>;
type Out = Vec<u64>;
const NONE: u64 = u64::MAX;

/// What the operation does to a standard map.  Sets keep 0 as every value.
fn model(m: &mut Model, op: Op, a: u32, b: u32, set: bool, out: &mut Out) {
    let val = |x: u32| if set { 0 } else { x };
    let o = |x: Option<u32>| x.map_or(NONE, |v| v as u64);
    match op {
        Insert => out.push(o(m.insert(a, val(b)))),
        Remove => out.push(o(m.remove(&a))),
        Mutate => out.push(o(m.get_mut(&a).map(|v| std::mem::replace(v, val(b))))),
        Fill => {
            for j in 0..1 + b % 12 {
                m.insert(a + j, val(b));
            }
        }
        Drain => {
            for j in 0..1 + b % 12 {
                out.push(o(m.remove(&(a + j))));
            }
        }
        IterMut => {
            for (k, v) in m.iter_mut().take(1 + a as usize) {
                out.push((*k as u64) << 32 | *v as u64);
                *v = val(b);
            }
        }
        OwnAll => {
            for (k, v) in std::mem::take(m) {
                out.push((k as u64) << 32 | v as u64);
                if k % 3 != b % 3 {
                    m.insert(k, v);
                }
            }
        }
        OwnSome => {
            let mut it = std::mem::take(m).into_iter();
            for _ in 0..b % 7 {
                out.push(it.next().map_or(NONE, |(k, v)| (k as u64) << 32 | v as u64));
            }
            for j in 0..8 {
                m.insert(a + j, val(b + j));
            }
        }
        OwnBack => {
            let mut it = std::mem::take(m).into_iter();
            for _ in 0..b % 7 {
                out.push(it.next_back().map_or(NONE, |(k, v)| (k as u64) << 32 | v as u64));
                if b % 2 == 0 {
                    out.push(it.next().map_or(NONE, |(k, v)| (k as u64) << 32 | v as u64));
                }
            }
            for j in 0..8 {
                m.insert(a + j, val(b + j));
            }
        }
        IterMutBack => {
            for (k, v) in m.iter_mut().rev().take(1 + a as usize % 16) {
                out.push((*k as u64) << 32 | *v as u64);
                *v = val(b);
            }
        }
        Back => out.extend(m.iter().rev().map(|(k, v)| (*k as u64) << 32 | *v as u64)),
        Show => out.push(7),
        Lazy => {
            if set {
                // with a clone from which a was taken and to which a + 1 was added
                let (had, had1) = (m.contains_key(&a), m.contains_key(&(a + 1)));
                let n = m.len();
                out.push((n + !had1 as usize) as u64);
                out.push((n - had as usize) as u64);
                out.push(if had { a as u64 } else { NONE });
                out.push((had as usize + !had1 as usize) as u64);
                out.push(!had as u64);
                out.push(had1 as u64);
                out.push((n - had as usize == 0) as u64);
            }
        }
        Extend => m.extend((0..1 + b % 6).map(|j| (a + 3 * j, val(b + j)))),
        CloneEdit => (),
        Clear => m.clear(),
        PopFirst => out.push(m.pop_first().map_or(NONE, |(k, v)| (k as u64) << 32 | v as u64)),
        PopLast => out.push(m.pop_last().map_or(NONE, |(k, v)| (k as u64) << 32 | v as u64)),
        Append => {
            m.remove(&a);
            m.insert(a + 1, val(b));
            m.insert(a + 200, val(b));
        }
        SplitOff => {
            let mut t = m.split_off(&a);
            out.push(t.len() as u64);
            if b % 2 == 0 {
                m.append(&mut t);
            }
        }
        Retain => m.retain(|k, v| {
            *v = val(*v ^ 1);
            k % 3 != b % 3
        }),
        EqClone => out.push(1),
        Entry => {
            let v = m.entry(a).or_insert(b);
            *v += 1;
            out.push(*v as u64);
        }
        RangeMut => {
            for (k, v) in m.range_mut(a..a + 1 + b % 16) {
                out.push((*k as u64) << 32 | *v as u64);
                *v = b;
            }
        }
        Algebra => {
            // with a clone from which a was taken and to which a + 1 was added
            match b % 4 {
                0 => {
                    m.entry(a + 1).and_modify(|v| *v = val(b)).or_insert(val(b));
                }
                1 => {
                    m.remove(&a);
                }
                2 => {
                    let v = m.remove(&a);
                    m.clear();
                    if let Some(v) = v {
                        m.insert(a, v);
                    }
                }
                _ => {
                    let had = m.get(&a).copied();
                    let had1 = m.contains_key(&(a + 1));
                    m.clear();
                    if let Some(v) = had {
                        m.insert(a, v);
                    }
                    if !had1 {
                        m.insert(a + 1, val(b));
                    }
                }
            }
        }
        Get => out.push(o(m.get(&a).copied())),
        Len => out.push(m.len() as u64),
        Iter => out.extend(m.iter().map(|(k, v)| (*k as u64) << 32 | *v as u64)),
        Range => out.extend(m.range(a..a + 1 + b % 16).map(|(k, v)| (*k as u64) << 32 | *v as u64)),
        Ends => {
            out.push(m.first_key_value().map_or(NONE, |(k, _)| *k as u64));
            out.push(m.last_key_value().map_or(NONE, |(k, _)| *k as u64));
        }
    }
}

pub trait Col: Clone + Send + Sync + 'static {
    const NAME: &'static str;
    const SET: bool = false;
    fn empty() -> Self;
    fn ops() -> Vec<Op>;
    fn apply(&mut self, op: Op, a: u32, b: u32, out: &mut Out);
    fn peek(&self, op: Op, a: u32, b: u32, out: &mut Out);
}

fn kv(x: Option<(Key, Val)>) -> u64 {
    x.map_or(NONE, |(k, v)| (*k.k as u64) << 32 | v.get() as u64)
}
fn kvr(x: (&Key, &Val)) -> u64 {
    used(x.0.id, "read");
    (*x.0.k as u64) << 32 | x.1.get() as u64
}

macro_rules! common {
    ($self:ident, $op:ident, $a:ident, $b:ident, $out:ident) => {
        match $op {
            Insert => $out.push($self.insert(Key::mk($a), Val::mk($b)).map_or(NONE, |v| v.get() as u64)),
            Remove => $out.push($self.remove(&Key::mk($a)).map_or(NONE, |v| v.get() as u64)),
            Mutate => $out.push($self.get_mut(&Key::mk($a)).map_or(NONE, |v| {
                let r = v.get();
                v.set($b);
                r as u64
            })),
            Fill => {
                for j in 0..1 + $b % 12 {
                    $self.insert(Key::mk($a + j), Val::mk($b));
                }
            }
            Drain => {
                for j in 0..1 + $b % 12 {
                    $out.push($self.remove(&Key::mk($a + j)).map_or(NONE, |v| v.get() as u64));
                }
            }
            IterMut => {
                for (k, v) in $self.iter_mut().take(1 + $a as usize) {
                    $out.push((*k.k as u64) << 32 | v.get() as u64);
                    v.set($b);
                }
            }
            OwnAll => {
                let old = std::mem::replace($self, Self::empty());
                for (k, v) in old {
                    $out.push((*k.k as u64) << 32 | v.get() as u64);
                    if *k.k % 3 != $b % 3 {
                        $self.insert(k, v);
                    }
                }
            }
            OwnSome => {
                let mut it = std::mem::replace($self, Self::empty()).into_iter();
                for _ in 0..$b % 7 {
                    $out.push(kv(it.next()));
                }
                for j in 0..8 {
                    $self.insert(Key::mk($a + j), Val::mk($b + j));
                }
                drop(it);
            }
            OwnBack => {
                let mut it = std::mem::replace($self, Self::empty()).into_iter();
                for _ in 0..$b % 7 {
                    $out.push(kv(it.next_back()));
                    if $b % 2 == 0 {
                        $out.push(kv(it.next()));
                    }
                }
                drop(it);
                for j in 0..8 {
                    $self.insert(Key::mk($a + j), Val::mk($b + j));
                }
            }
            IterMutBack => {
                for (k, v) in $self.iter_mut().rev().take(1 + $a as usize % 16) {
                    $out.push((*k.k as u64) << 32 | v.get() as u64);
                    v.set($b);
                }
            }
            Extend => std::iter::Extend::<(Key, Val)>::extend($self, (0..1 + $b % 6).map(|j| (Key::mk($a + 3 * j), Val::mk($b + j)))),
            CloneEdit => {
                let mut c = $self.clone();
                c.insert(Key::mk($a), Val::mk($b));
                c.remove(&Key::mk($b % 64));
                if $b % 2 == 0 {
                    std::mem::swap(&mut c, $self);
                    std::mem::swap(&mut c, $self);
                }
                drop(c);
            }
            Clear => $self.clear(),
            _ => $self.more($op, $a, $b, $out),
        }
    };
}
macro_rules! common_read {
    ($self:ident, $op:ident, $a:ident, $b:ident, $out:ident) => {
        match $op {
            Get => $out.push($self.get(&Key::mk($a)).map_or(NONE, |v| v.get() as u64)),
            Len => $out.push($self.len() as u64),
            Iter => $out.extend($self.iter().map(kvr)),
            Back => $out.extend($self.iter().rev().map(kvr)),
            Lazy => (),
            _ => $self.more_read($op, $a, $b, $out),
        }
    };
}
fn hash<C: Hash>(c: &C) -> u64 {
    let mut h = crate::Fnv(0xcbf2_9ce4_8422_2325);
    c.hash(&mut h);
    h.finish()
}
/// two clones: equal, in no order, of one hash and one text?
fn alike<C: Ord + std::fmt::Debug>(a: &C, b: &C, hash: fn(&C) -> u64) -> u64 {
    (a == b) as u64 | ((a.cmp(b) == Ordering::Equal) as u64) << 1 | ((hash(a) == hash(b) && format!("{a:?}") == format!("{b:?}")) as u64) << 2
}
trait More {
    fn more(&mut self, op: Op, a: u32, b: u32, out: &mut Out);
    fn more_read(&self, op: Op, a: u32, b: u32, out: &mut Out);
}
macro_rules! full_map {
    ([$($g:tt)*] $T:ty, $name:expr, |$m:ident, $c:ident, $b0:ident| $algebra:expr, $avl:expr) => {
        impl<$($g)*> Col for $T {
            const NAME: &'static str = $name;
            fn empty() -> Self {
                Self::new()
            }
            fn ops() -> Vec<Op> {
                let mut v = vec![Insert, Insert, Remove, Remove, Mutate, Fill, Drain, IterMut, OwnAll, OwnSome, OwnBack, IterMutBack, Extend, CloneEdit, Clear, PopFirst, PopLast, Append, SplitOff, Retain, EqClone, Entry, RangeMut];
                if $avl {
                    v.push(Algebra)
                }
                v
            }
            fn apply(&mut self, op: Op, a: u32, b: u32, out: &mut Out) {
                common!(self, op, a, b, out)
            }
            fn peek(&self, op: Op, a: u32, b: u32, out: &mut Out) {
                common_read!(self, op, a, b, out)
            }
        }
        impl<$($g)*> More for $T {
            fn more(&mut self, op: Op, a: u32, b: u32, out: &mut Out) {
                match op {
                    PopFirst => out.push(kv(self.pop_first())),
                    PopLast => out.push(kv(self.pop_last())),
                    Append => {
                        let mut o = self.clone();
                        o.insert(Key::mk(a + 1), Val::mk(b));
                        o.insert(Key::mk(a + 200), Val::mk(b));
                        o.remove(&Key::mk(a));
                        self.remove(&Key::mk(a));
                        self.append(&mut o);
                    }
                    SplitOff => {
                        let mut t = self.split_off(&Key::mk(a));
                        out.push(t.len() as u64);
                        if b % 2 == 0 {
                            self.append(&mut t);
                        }
                    }
                    Retain => self.retain(|k, v| {
                        let x = v.get() ^ 1;
                        v.set(x);
                        *k.k % 3 != b % 3
                    }),
                    EqClone => out.push((*self == self.clone()) as u64),
                    Entry => {
                        let v = self.entry(Key::mk(a)).or_insert(Val::mk(b));
                        let x = v.get() + 1;
                        v.set(x);
                        out.push(x as u64);
                    }
                    RangeMut => {
                        for (k, v) in self.range_mut(Key::mk(a)..Key::mk(a + 1 + b % 16)) {
                            out.push((*k.k as u64) << 32 | v.get() as u64);
                            v.set(b);
                        }
                    }
                    Algebra => {
                        let mut $c = self.clone();
                        $c.remove(&Key::mk(a));
                        $c.insert(Key::mk(a + 1), Val::mk(b));
                        let $m = std::mem::replace(self, Self::new());
                        let $b0 = b;
                        *self = $algebra;
                    }
                    _ => unreachable!(),
                }
            }
            fn more_read(&self, op: Op, a: u32, b: u32, out: &mut Out) {
                match op {
                    Range => out.extend(self.range(Key::mk(a)..Key::mk(a + 1 + b % 16)).map(kvr)),
                    Ends => {
                        out.push(self.first_key_value().map_or(NONE, |(k, _)| *k.k as u64));
                        out.push(self.last_key_value().map_or(NONE, |(k, _)| *k.k as u64));
                    }
                    Show => out.push(alike(self, &self.clone(), |_| 0)),
                    _ => unreachable!(),
                }
            }
        }
    };
}
full_map!([] AvlMap<Key, Val>, "AvlMap", |m, c, b| match b % 4 {
    // union prefers the right operand's entry
    0 => Self::new_union(m, c),
    1 => Self::new_intersect(m, { let mut c = c; c.remove(&Key::mk(u32::MAX)); c }),
    2 => Self::new_diff(m, c),
    _ => Self::new_sym_diff(m, c),
}, true);
full_map!([const N: usize] btree::BTreeMap<Key, Val, N>, "BTreeMap", |m, c, _b| { drop(c); m }, false);

pub type Fixed = btree::fixed::BTreeMap<Key, Val>;
impl Col for Fixed {
    const NAME: &'static str = "fixed::BTreeMap";
    fn empty() -> Self {
        Self::new()
    }
    fn ops() -> Vec<Op> {
        vec![Insert, Insert, Remove, Remove, Mutate, Fill, Drain, IterMut, IterMutBack, OwnAll, OwnSome, OwnBack, Extend, CloneEdit, Clear]
    }
    fn apply(&mut self, op: Op, a: u32, b: u32, out: &mut Out) {
        common!(self, op, a, b, out)
    }
    fn peek(&self, op: Op, a: u32, b: u32, out: &mut Out) {
        common_read!(self, op, a, b, out)
    }
}
impl More for Fixed {
    fn more(&mut self, _: Op, _: u32, _: u32, _: &mut Out) {
        unreachable!()
    }
    fn more_read(&self, op: Op, a: u32, b: u32, out: &mut Out) {
        match op {
            Range => out.extend(self.iter().map(kvr).filter(|x| (x >> 32) as u32 >= a && ((x >> 32) as u32) < a + 1 + b % 16)),
            Ends => {
                out.push(self.iter().next().map_or(NONE, |(k, _)| *k.k as u64));
                out.push(self.iter().next_back().map_or(NONE, |(k, _)| *k.k as u64));
            }
            Show => out.push(7),
            _ => unreachable!(),
        }
    }
}

macro_rules! set_col {
    ([$($g:tt)*] $T:ty, $name:expr) => {
        impl<$($g)*> Col for $T {
            const NAME: &'static str = $name;
            const SET: bool = true;
            fn empty() -> Self {
                Self::new()
            }
            fn ops() -> Vec<Op> {
                vec![Insert, Insert, Remove, Remove, Fill, Drain, OwnAll, OwnSome, Extend, CloneEdit, Clear, PopFirst, PopLast, Append, SplitOff, Retain, EqClone, Algebra]
            }
            fn apply(&mut self, op: Op, a: u32, b: u32, out: &mut Out) {
                let k0 = |x: Option<Key>| x.map_or(NONE, |k| (*k.k as u64) << 32);
                match op {
                    Insert => out.push(if self.insert(Key::mk(a)) { NONE } else { 0 }),
                    Remove => out.push(if b % 2 == 0 { if self.remove(&Key::mk(a)) { 0 } else { NONE } } else { self.take(&Key::mk(a)).map_or(NONE, |k| if *k.k == a { 0 } else { 1 }) }),
                    Fill => {
                        for j in 0..1 + b % 12 {
                            self.insert(Key::mk(a + j));
                        }
                    }
                    Drain => {
                        for j in 0..1 + b % 12 {
                            out.push(if self.remove(&Key::mk(a + j)) { 0 } else { NONE });
                        }
                    }
                    OwnAll => {
                        for k in std::mem::replace(self, Self::new()) {
                            out.push((*k.k as u64) << 32);
                            if *k.k % 3 != b % 3 {
                                self.insert(k);
                            }
                        }
                    }
                    OwnSome => {
                        let mut it = std::mem::replace(self, Self::new()).into_iter();
                        for _ in 0..b % 7 {
                            out.push(k0(it.next()));
                        }
                        for j in 0..8 {
                            self.insert(Key::mk(a + j));
                        }
                        drop(it);
                    }
                    Extend => std::iter::Extend::<Key>::extend(self, (0..1 + b % 6).map(|j| Key::mk(a + 3 * j))),
                    CloneEdit => {
                        let mut c = self.clone();
                        c.insert(Key::mk(a));
                        c.remove(&Key::mk(b % 64));
                        drop(c);
                    }
                    Clear => self.clear(),
                    PopFirst => out.push(k0(self.pop_first())),
                    PopLast => out.push(k0(self.pop_last())),
                    Append => {
                        let mut o = self.clone();
                        o.insert(Key::mk(a + 1));
                        o.insert(Key::mk(a + 200));
                        o.remove(&Key::mk(a));
                        self.remove(&Key::mk(a));
                        self.append(&mut o);
                    }
                    SplitOff => {
                        let mut t = self.split_off(&Key::mk(a));
                        out.push(t.len() as u64);
                        if b % 2 == 0 {
                            self.append(&mut t);
                        }
                    }
                    Retain => self.retain(|k| *k.k % 3 != b % 3),
                    EqClone => out.push((*self == self.clone()) as u64),
                    Algebra => {
                        let mut c = self.clone();
                        c.remove(&Key::mk(a));
                        c.insert(Key::mk(a + 1));
                        let m = std::mem::replace(self, Self::new());
                        *self = match b % 8 {
                            0 => Self::new_union(m, c),
                            1 => Self::new_intersection(m, c),
                            2 => Self::new_diff(m, c),
                            3 => Self::new_sym_diff(m, c),
                            4 => &m | &c,
                            5 => &m & &c,
                            6 => &m - &c,
                            _ => &m ^ &c,
                        };
                    }
                    _ => unreachable!(),
                }
            }
            fn peek(&self, op: Op, a: u32, b: u32, out: &mut Out) {
                match op {
                    Get => out.push(if self.contains(&Key::mk(a)) { 0 } else { NONE }),
                    Len => out.push(self.len() as u64),
                    Iter => out.extend(self.iter().map(|k| { used(k.id, "read"); (*k.k as u64) << 32 })),
                    Range => out.extend(self.range(Key::mk(a)..Key::mk(a + 1 + b % 16)).map(|k| (*k.k as u64) << 32)),
                    Ends => {
                        out.push(self.first().map_or(NONE, |k| *k.k as u64));
                        out.push(self.last().map_or(NONE, |k| *k.k as u64));
                    }
                    Back => out.extend(self.range::<Key, _>(..).rev().map(|k| (*k.k as u64) << 32)),
                    Show => out.push(alike(self, &self.clone(), hash)),
                    Lazy => {
                        let mut c = self.clone();
                        c.remove(&Key::mk(a));
                        c.insert(Key::mk(a + 1));
                        out.push(self.union(&c).count() as u64);
                        out.push(self.intersection(&c).count() as u64);
                        out.push(self.difference(&c).next().map_or(NONE, |k| *k.k as u64));
                        out.push(self.symmetric_difference(&c).count() as u64);
                        out.push(self.is_subset(&c) as u64);
                        out.push(self.is_superset(&c) as u64);
                        out.push(self.is_disjoint(&c) as u64);
                    }
                    _ => unreachable!(),
                }
            }
        }
    };
}
set_col!([] AvlSet<Key>, "AvlSet");
set_col!([const N: usize] BTreeSet<Key, N>, "BTreeSet");

// ---------------------------------------------------------------- cases
type Handle<C> = (C, Model);

#[derive(Default)]
pub struct Env {
    /// whatever the library keeps for the whole process is met for the first time
    pub cold: bool,
    pub stats: Stats,
    pub orders: std::collections::HashSet<u64>,
}

fn same<C: Col>(h: &C, m: &Model, what: &str) -> Result<(), String> {
    let (mut x, mut y) = (vec![], vec![]);
    h.peek(Iter, 0, 0, &mut x);
    h.peek(Len, 0, 0, &mut x);
    let mut mm = m.clone();
    model(&mut mm, Iter, 0, 0, C::SET, &mut y);
    model(&mut mm, Len, 0, 0, C::SET, &mut y);
    if x != y {
        let show = |v: &Out| v.iter().take(12).map(|x| format!("{}:{}", x >> 32, *x as u32)).collect::<Vec<_>>().join(" ");
        return Err(format!("{what}: holds {} ..., expected {} ...", show(&x), show(&y)));
    }
    Ok(())
}

struct Plan {
    seed: u64,
    idx: u64,
    uni: u32,
    ops: usize,
    rate: u32,
    cold: bool,
}

/// What one thread does in one phase.
fn work<C: Col>(p: &Plan, phase: usize, t: usize, mut own: Vec<Handle<C>>, shared: &[Handle<C>], log: &mut Vec<(u64, u64)>) -> Result<Vec<Handle<C>>, String> {
    let mut rng = Rng::derive(p.seed ^ 0x7EAD ^ (phase as u64) << 20, p.idx << 8 | t as u64);
    let r = &mut rng;
    DELAY.with(|d| d.set(r.u64()));
    let ops = C::ops();
    let style = r.below(4);
    let n = 1 + r.below(p.ops);
    for j in 0..n {
        let (a, b) = (r.below(p.uni as usize) as u32, r.below(1 << 12) as u32);
        let (mut x, mut y) = (vec![], vec![]);
        let tick = TICKET.fetch_add(1, Relaxed);
        let others = INFLIGHT.fetch_add(1, Relaxed);
        log.push((tick, others.max(0) as u64));
        let seen: Result<(), String> = (|| {
            if !shared.is_empty() && (own.is_empty() || r.chance(1, 3)) {
                let (h, m) = &shared[r.below(shared.len())];
                if r.chance(1, 2) {
                    let op = *r.pick(&READS);
                    h.peek(op, a, b, &mut x);
                    model(&mut m.clone(), op, a, b, C::SET, &mut y);
                    if x != y {
                        return Err(format!("{op:?}({a}, {b}) on a shared handle answered {x:?}, expected {y:?}"));
                    }
                } else {
                    let mut c = h.clone();
                    let op = *r.pick(&ops);
                    let mut mm = m.clone();
                    c.apply(op, a, b, &mut x);
                    model(&mut mm, op, a, b, C::SET, &mut y);
                    if x != y {
                        return Err(format!("{op:?}({a}, {b}) on a clone answered {x:?}, expected {y:?}"));
                    }
                    if own.len() < 4 && r.chance(1, 2) {
                        own.push((c, mm));
                    } else {
                        same(&c, &mm, "clone of a shared handle")?;
                    }
                }
                return Ok(());
            }
            if own.is_empty() {
                return Ok(());
            }
            let i = r.below(own.len());
            let w = r.below(16);
            if w == 0 && own.len() < 5 {
                let c = (own[i].0.clone(), own[i].1.clone());
                own.push(c);
                return Ok(());
            }
            if w == 1 && own.len() > 1 {
                drop(own.swap_remove(i));
                return Ok(());
            }
            let (h, m) = &mut own[i];
            if w < 5 {
                let op = *r.pick(&READS);
                h.peek(op, a, b, &mut x);
                model(m, op, a, b, C::SET, &mut y);
                if x != y {
                    return Err(format!("{op:?}({a}, {b}) answered {x:?}, expected {y:?}"));
                }
                return Ok(());
            }
            // some threads mostly insert or remove, some mostly consume
            let op = match (style, w) {
                (1, 5..=11) => *r.pick(&[Insert, Remove]),
                (2, 5..=9) => *r.pick(&[OwnSome, OwnAll, Insert]),
                _ => *r.pick(&ops),
            };
            h.apply(op, a, b, &mut x);
            model(m, op, a, b, C::SET, &mut y);
            if x != y {
                return Err(format!("{op:?}({a}, {b}) answered {x:?}, expected {y:?}"));
            }
            Ok(())
        })();
        INFLIGHT.fetch_sub(1, Relaxed);
        seen.map_err(|e| format!("phase {phase}, thread {t}, operation {j}: {e}"))?;
    }
    for (h, m) in &own {
        same(h, m, &format!("phase {phase}, thread {t}, at the end"))?;
    }
    Ok(own)
}

/// One thread's part, panics turned into reports.
fn guarded<C: Col>(p: &Plan, phase: usize, t: usize, own: Vec<Handle<C>>, shared: &[Handle<C>], log: &mut Vec<(u64, u64)>) -> Result<Vec<Handle<C>>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| work(p, phase, t, own, shared, log)));
    r.unwrap_or_else(|_| Err(format!("phase {phase}, thread {t}: panic: {}", panic_msg())))
}

fn history<C: Col>(p: &Plan, r: &mut Rng, parallel: bool, env: &mut Env, log: &mut Vec<(u64, usize)>) -> Result<(), String> {
    let threads = *r.pick(&[2usize, 2, 3, 4]);
    let phases = r.range(1, 3);
    doing(|| format!("{} on {threads} threads, {phases} phases, {} keys, up to {} operations", C::NAME, p.uni, p.ops));
    // where it starts: one or two collections, cloned a few times
    let mut pool: Vec<Handle<C>> = vec![];
    for _ in 0..r.range(1, 2) {
        let (mut c, mut m) = (C::empty(), Model::new());
        // started cold, it is often the threads that do everything for the first time
        let n = r.below(p.uni as usize + 1);
        for _ in 0..if p.cold && p.idx % 2 == 0 { 0 } else { n } {
            let (a, b) = (r.below(p.uni as usize) as u32, r.below(1 << 12) as u32);
            c.apply(Insert, a, b, &mut vec![]);
            model(&mut m, Insert, a, b, C::SET, &mut vec![]);
        }
        pool.push((c, m));
    }
    for phase in 0..phases {
        // hand out: each thread some handles, the rest is shared by reference (or nothing, so that threads are the only owners)
        let keep_shared = r.chance(1, 2);
        let mut hands: Vec<Vec<Handle<C>>> = (0..threads).map(|_| vec![]).collect();
        let base = r.below(pool.len());
        for (t, h) in hands.iter_mut().enumerate() {
            let (c, m) = &pool[if r.chance(3, 4) { base } else { r.below(pool.len()) }];
            h.push((c.clone(), m.clone()));
            if r.chance(1, 3) {
                let (c, m) = &pool[r.below(pool.len())];
                h.push((c.clone(), m.clone()));
            }
            doing(|| format!("phase {phase}: thread {t} starts with {} handles", h.len()));
        }
        let shared: Vec<Handle<C>> = if keep_shared { std::mem::take(&mut pool) } else { vec![] };
        pool.clear();
        let mut outs: Vec<(Result<Vec<Handle<C>>, String>, Vec<(u64, u64)>)> = vec![];
        if parallel {
            let barrier = Barrier::new(threads);
            std::thread::scope(|s| {
                let js: Vec<_> = hands
                    .drain(..)
                    .enumerate()
                    .map(|(t, own)| {
                        let (shared, barrier) = (&shared, &barrier);
                        std::thread::Builder::new()
                            .stack_size(4 << 20)
                            .spawn_scoped(s, move || {
                                DELAY_RATE.with(|d| d.set(p.rate));
                                let mut log = vec![];
                                barrier.wait();
                                let o = guarded(p, phase, t, own, shared, &mut log);
                                (o, log, DELAYS.with(|d| d.get()))
                            })
                            .unwrap()
                    })
                    .collect();
                for j in js {
                    let (o, l, d) = j.join().unwrap();
                    env.stats.add("delays_injected", d);
                    outs.push((o, l));
                }
            });
        } else {
            for (t, own) in hands.into_iter().enumerate() {
                let mut l = vec![];
                let o = guarded(p, phase, t, own, &shared, &mut l);
                outs.push((o, l));
            }
        }
        for (t, (o, l)) in outs.into_iter().enumerate() {
            env.stats.add("operations", l.len() as u64);
            env.stats.add("operations_while_others_ran", l.iter().filter(|x| x.1 > 0).count() as u64);
            log.extend(l.iter().map(|x| (x.0, t)));
            pool.extend(o?);
        }
        for (h, m) in &shared {
            same(h, m, &format!("phase {phase}: a handle shared by reference"))?;
        }
        pool.extend(shared);
        for (h, m) in &pool {
            same(h, m, &format!("after phase {phase}"))?;
        }
        env.stats.add("phases", 1);
        env.stats.add("threads", threads as u64);
        while pool.len() > 6 {
            pool.swap_remove(r.below(pool.len()));
        }
    }
    // dropped or consumed by several threads at once, as the last owners
    let consume = r.chance(1, 2);
    if parallel {
        let barrier = Barrier::new(pool.len());
        std::thread::scope(|s| {
            for (mut c, m) in pool.drain(..) {
                let barrier = &barrier;
                s.spawn(move || {
                    DELAY_RATE.with(|d| d.set(p.rate));
                    barrier.wait();
                    if consume {
                        let (mut x, mut y, mut m) = (vec![], vec![], m);
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            c.apply(OwnAll, 0, 0, &mut x);
                            model(&mut m, OwnAll, 0, 0, C::SET, &mut y);
                        }));
                        if r.is_err() {
                            err(format!("panic while consuming: {}", panic_msg()));
                        } else if x != y {
                            err("consuming a collection gave other elements than it held".into());
                        }
                    }
                    drop(c);
                });
            }
        });
    } else if consume {
        for (c, _) in pool.iter_mut() {
            c.apply(OwnAll, 0, 0, &mut vec![]);
        }
    }
    Ok(())
}

fn once(seed: u64, idx: u64, parallel: bool, env: &mut Env) -> Result<(), String> {
    NEXT.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    TICKET.store(0, Relaxed);
    INFLIGHT.store(0, Relaxed);
    ERRS.lock().unwrap().clear();
    let mut rng = Rng::derive(seed ^ 0x7A11, idx);
    let r = &mut rng;
    let p = Plan {
        seed,
        idx,
        cold: env.cold,
        uni: *r.pick(if cfg!(miri) { &[6u32, 12, 24] } else { &[6u32, 16, 40, 40, 120] }),
        ops: if cfg!(miri) { 8 } else if env.cold { 80 } else { *r.pick(&[4usize, 12, 40]) },
        rate: if parallel { *r.pick(&[6u32, 20, 60, 300]) } else { 0 },
    };
    let mut log = vec![];
    let res = match idx % 12 {
        0 | 1 => history::<AvlMap<Key, Val>>(&p, r, parallel, env, &mut log),
        2 => history::<btree::BTreeMap<Key, Val, 1>>(&p, r, parallel, env, &mut log),
        3 | 4 => history::<btree::BTreeMap<Key, Val, 2>>(&p, r, parallel, env, &mut log),
        5 | 6 => history::<Fixed>(&p, r, parallel, env, &mut log),
        7 => history::<AvlSet<Key>>(&p, r, parallel, env, &mut log),
        8 => history::<BTreeSet<Key, 1>>(&p, r, parallel, env, &mut log),
        9 => history::<btree::BTreeMap<Key, Val, 5>>(&p, r, parallel, env, &mut log),
        10 => history::<BTreeSet<Key, 5>>(&p, r, parallel, env, &mut log),
        _ => history::<BTreeSet<Key, 3>>(&p, r, parallel, env, &mut log),
    };
    if parallel {
        log.sort();
        let mut h = crate::Fnv(0xcbf2_9ce4_8422_2325 ^ idx);
        log.iter().for_each(|x| x.1.hash(&mut h));
        env.orders.insert(h.finish());
        env.stats.add("elements_created", NEXT.load(Relaxed) as u64);
    }
    res?;
    if let Some(e) = ERRS.lock().unwrap().first() {
        return Err(e.clone());
    }
    let live = LIVE.load(Relaxed);
    if live != 0 {
        return Err(format!("{live} more elements created than dropped"));
    }
    Ok(())
}

pub enum Bad {
    /// happens without threads as well
    Soft(String),
    Hard(String),
}
pub fn case(seed: u64, idx: u64, env: &mut Env) -> Result<(), Bad> {
    let r = catch_unwind(AssertUnwindSafe(|| once(seed, idx, true, env))).unwrap_or_else(|_| Err(format!("panic: {}", panic_msg())));
    match r {
        Ok(()) => Ok(()),
        Err(e) => {
            let again = catch_unwind(AssertUnwindSafe(|| once(seed, idx, false, &mut Env { cold: env.cold, ..Env::default() }))).unwrap_or_else(|_| Err("panic".into()));
            Err(if again.is_err() { Bad::Soft(e) } else { Bad::Hard(e) })
        }
    }
}
