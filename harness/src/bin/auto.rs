//! Which types claim to be Send and Sync: decided by the compiler for concrete types, reported at run time.
//! What claims to be usable from other threads is then used from other threads, under whatever watches this process (C15).
use lazy_clone_collections as lcc;
use lcc::btree::btree_set::BTreeSet;
use lcc::{btree, AvlMap, AvlSet, Map, Stack};
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Barrier;

struct P<T: ?Sized>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
    fn is_send(&self) -> bool {
        false
    }
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T: ?Sized> No for P<T> {}
struct PS<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> No for PS<T> {}
// inherent items win over the trait's where the bound holds
#[allow(dead_code)]
impl<T: ?Sized + Send> P<T> {
    const SEND: bool = true;
    fn is_send(&self) -> bool {
        true
    }
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> PS<T> {
    const SYNC: bool = true;
    fn is_sync(&self) -> bool {
        true
    }
}
fn of<T>(_: &T) -> (P<T>, PS<T>) {
    (P(PhantomData), PS(PhantomData))
}

/// moves what has been found to be Send
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}
impl<T> Moved<T> {
    fn get(self) -> T {
        self.0
    }
}
/// shares what has been found to be Sync
struct Shared<'a, T>(&'a T);
impl<T> Clone for Shared<'_, T> {
    fn clone(&self) -> Self {
        Shared(self.0)
    }
}
unsafe impl<T> Send for Shared<'_, T> {}
impl<'a, T> Shared<'a, T> {
    fn get(self) -> &'a T {
        self.0
    }
}

/// the same work on both, at the same time
fn both<T>(a: T, b: T, f: fn(T)) {
    let (a, b) = (Moved(a), Moved(b));
    let bar = Barrier::new(2);
    std::thread::scope(|s| {
        let br = &bar;
        s.spawn(move || {
            let a = a.get();
            br.wait();
            f(a)
        });
        s.spawn(move || {
            let b = b.get();
            br.wait();
            f(b)
        });
    });
}
fn both_ref<T>(a: &T, f: fn(&T)) {
    let (a, b) = (Shared(a), Shared(a));
    let bar = Barrier::new(2);
    std::thread::scope(|s| {
        let br = &bar;
        s.spawn(move || {
            let a = a.get();
            br.wait();
            f(a)
        });
        s.spawn(move || {
            let b = b.get();
            br.wait();
            f(b)
        });
    });
}

fn stack() -> Stack<Box<u32>> {
    (0..12).map(Box::new).collect()
}
fn work(mut s: Stack<Box<u32>>) {
    for i in 0..30 {
        let t = s.clone();
        if i % 3 == 0 {
            s.pop();
        } else if i % 3 == 1 {
            s.push(Box::new(i));
        } else if let Some(x) = s.top_mut() {
            **x += 1;
        }
        assert!(t.len() + 1 >= s.len());
    }
}

fn main() {
    let o = lcc_harness::run::parse_args();
    let prop: &'static str = if o.prop == "C15" { "C15" } else { "C14" };
    let mut out = vec![];
    let mut bad = vec![];
    let mut ran = 0;
    macro_rules! t {
        ($($T:ty => $send:expr, $sync:expr;)*) => { $(
            let (a, b) = (P::<$T>::SEND, PS::<$T>::SYNC);
            out.push(format!("{}: Send {a}, Sync {b}", stringify!($T)));
            if $send == 1 && !a { bad.push(format!("{} is not Send", stringify!($T))); }
            if $sync == 1 && !b { bad.push(format!("{} is not Sync", stringify!($T))); }
            // never safe: elements that are not themselves
            if $send == 0 && a { bad.push(format!("{} is Send although its elements may not be used from other threads", stringify!($T))); }
            if $sync == 0 && b { bad.push(format!("{} is Sync although its elements may not be used from other threads", stringify!($T))); }
        )* };
    }
    // a value whose elements (or the references it hands out) may not be used from other threads
    macro_rules! v {
        ($($x:expr, $send:expr, $sync:expr;)*) => { $(
            let x = $x;
            let p = of(&x);
            let (a, b) = (p.0.is_send(), p.1.is_sync());
            drop(x);
            out.push(format!("{}: Send {a}, Sync {b}", stringify!($x)));
            if $send == 0 && a { bad.push(format!("{} is Send although its elements may not be used from other threads", stringify!($x))); }
            if $sync == 0 && b { bad.push(format!("{} is Sync although its elements may not be used from other threads", stringify!($x))); }
        )* };
    }
    if prop == "C14" {
        // 1 = must be, 0 = must not be
        t! {
            AvlMap<u32, String> => 1, 1;
            AvlSet<u32> => 1, 1;
            AvlSet<String> => 1, 1;
            AvlMap<Box<u32>, Vec<u8>> => 1, 1;
            btree::BTreeMap<u32, String, 1> => 1, 1;
            btree::BTreeMap<u32, String, 2> => 1, 1;
            btree::BTreeMap<String, Vec<u8>, 6> => 1, 1;
            BTreeSet<u32, 1> => 1, 1;
            BTreeSet<String, 3> => 1, 1;
            btree::fixed::BTreeMap<u32, String> => 1, 1;
            btree::fixed::BTreeMap<String, Vec<u8>> => 1, 1;
            AvlMap<u32, AvlMap<u32, String>> => 1, 1;
        }
    }
    t! {
        AvlMap<u32, Rc<u32>> => 0, 0;
        AvlMap<Rc<u32>, u32> => 0, 0;
        AvlSet<Rc<u32>> => 0, 0;
        btree::BTreeMap<Rc<u32>, u32, 2> => 0, 0;
        btree::BTreeMap<u32, Rc<u32>, 2> => 0, 0;
        BTreeSet<Rc<u32>, 2> => 0, 0;
        btree::fixed::BTreeMap<Rc<u32>, u32> => 0, 0;
        btree::fixed::BTreeMap<u32, Rc<u32>> => 0, 0;
        // parts may be shared, so being Send takes Sync elements
        AvlMap<u32, Cell<u32>> => 0, 0;
        btree::BTreeMap<u32, Cell<u32>, 2> => 0, 0;
        btree::fixed::BTreeMap<u32, Cell<u32>> => 0, 0;
        AvlMap<u32, std::sync::MutexGuard<'static, u32>> => 0, 2;
        btree::fixed::BTreeMap<u32, std::sync::MutexGuard<'static, u32>> => 0, 2;
        Stack<Rc<u32>> => 0, 0;
        Stack<Cell<u32>> => 0, 0;
    }
    if prop == "C15" {
        macro_rules! map {
            ($M:ty, full) => {{
                map!($M, some);
                let mut m: $M = Default::default();
                m.insert(1, Rc::new(1));
                v! {
                    m.range(0..), 0, 0;
                    m.range_mut(0..), 0, 0;
                    m.keys(), 2, 2;
                    m.values(), 0, 0;
                    m.values_mut(), 0, 0;
                    m.clone().into_keys(), 0, 2;
                    m.clone().into_values(), 0, 0;
                    m.entry(1), 0, 0;
                }
            }};
            ($M:ty, some) => {{
                let mut m: $M = Default::default();
                m.insert(1, Rc::new(1));
                v! {
                    m.iter(), 0, 0;
                    m.iter_mut(), 0, 0;
                    m.clone().into_iter(), 0, 0;
                }
            }};
        }
        map!(AvlMap<u32, Rc<u32>>, full);
        map!(btree::BTreeMap<u32, Rc<u32>, 1>, full);
        map!(btree::BTreeMap<u32, Rc<u32>, 3>, full);
        map!(btree::fixed::BTreeMap<u32, Rc<u32>>, some);
        // a shared reference into what a clone shares is enough to race on these
        let mut m: AvlMap<u32, Cell<u32>> = AvlMap::new();
        m.insert(1, Cell::new(1));
        v! { m.iter(), 0, 2; m.range(0..), 0, 2; m.values(), 0, 2; m.iter_mut(), 2, 2; m.clone().into_iter(), 0, 2; }
        let mut m: btree::BTreeMap<u32, Cell<u32>, 2> = Default::default();
        m.insert(1, Cell::new(1));
        v! { m.iter(), 0, 2; m.range(0..), 0, 2; m.values(), 0, 2; m.iter_mut(), 2, 2; m.clone().into_iter(), 0, 2; }
        let s: AvlSet<Rc<u32>> = [Rc::new(1)].into_iter().collect();
        v! {
            s.iter(), 0, 0;
            s.clone().into_iter(), 0, 0;
            s.union(&s), 0, 0;
            s.intersection(&s), 0, 0;
            s.difference(&s), 0, 0;
            s.symmetric_difference(&s), 0, 0;
            s.range(Rc::new(0)..), 0, 0;
        }
        let s: BTreeSet<Rc<u32>, 2> = [Rc::new(1)].into_iter().collect();
        v! {
            s.iter(), 0, 0;
            s.clone().into_iter(), 0, 0;
            s.union(&s), 0, 0;
            s.intersection(&s), 0, 0;
            s.difference(&s), 0, 0;
            s.symmetric_difference(&s), 0, 0;
            s.range(Rc::new(0)..), 0, 0;
        }
        let mut s: Stack<Rc<u32>> = [Rc::new(1)].into_iter().collect();
        v! {
            s.iter(), 0, 0;
            s.iter_mut(), 0, 0;
            s.clone().into_iter(), 0, 0;
        }

        // Stacks need not be Send or Sync; if they are, this must work.  Whoever watches sees a race in it.
        if P::<Stack<Box<u32>>>::SEND {
            let s = stack();
            both(s.clone(), s, work);
            let s = stack();
            both(s.clone(), s, drop);
            let s = stack();
            both(s.clone(), s, |s| assert_eq!(s.into_iter().map(|x| *x).sum::<u32>(), 66));
            ran += 3;
        }
        if PS::<Stack<Box<u32>>>::SYNC {
            both_ref(&stack(), |s| work(s.clone()));
            ran += 1;
        }
        let s = stack();
        if of(&s.clone().into_iter()).0.is_send() {
            both(s.clone().into_iter(), s.clone().into_iter(), |i| assert_eq!(i.map(|x| *x).sum::<u32>(), 66));
            ran += 1;
        }
        let (mut s, mut t) = (s.clone(), s);
        if of(&s.iter_mut()).0.is_send() {
            both(s.iter_mut(), t.iter_mut(), |i| i.for_each(|x| **x += 1));
            ran += 1;
        }
        if of(&s.iter()).0.is_send() {
            both(s.iter(), t.iter(), |i| i.for_each(|x| assert!(**x < 99)));
            ran += 1;
        }
        out.push(format!("stacks and their iterators that claim to be usable from other threads, and were used so: {ran}"));
    }
    let n = out.len();
    let v: Vec<serde_json::Value> = bad.iter().map(|m| serde_json::json!({"prop": prop, "msg": m, "case": null})).collect();
    out.truncate(12);
    lcc_harness::run::write(&o.out, &serde_json::json!({"cases": n, "distinct_nontrivial": n, "rule": "types for which the compiler decides Send and Sync", "samples": out, "violations": v, "stats": {"types_probed": n, "threaded_uses": ran}, "wall_s": 0.0}));
}
