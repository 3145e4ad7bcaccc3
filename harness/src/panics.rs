//! Panics injected into user code (comparison, clone, drop, closures, source iterators) at every point of every operation.
//!
//! A case builds the same small world of collections that share parts again and again, and lets the k-th piece of user code that one
//! operation calls panic, for one k after the other.  The registry of elements sees double drops and uses of dropped elements; the
//! other collections must be exactly what they were; the one operated on must still be readable, clearable, refillable, droppable.
use crate::api::*;
use crate::maps;
use crate::rng::{mix, Rng};
use crate::run::{doing, label, panic_msg, CaseOut, Stats, Viol};
use crate::sets;
use crate::tok::{self, Ev, KeyT, ValT};
use lazy_clone_collections::Stack;
use std::collections::BTreeMap as Std;
use std::ops::Bound::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const P: &str = "C16";
type Res = Result<(), String>;

trait World: Sized {
    fn build(rng: &mut Rng) -> Self;
    fn name(&self) -> String;
    /// the operations this world's collections have
    fn ops(&self) -> &'static [&'static str];
    fn readonly(op: &str) -> bool;
    fn run(&mut self, op: &'static str, rng: &mut Rng);
    fn others_intact(&self) -> Res;
    fn victim_intact(&self) -> Res;
    fn victim_usable(&mut self, rng: &mut Rng) -> Res;
    fn others_work(&mut self, rng: &mut Rng) -> Res;
    fn drop_all(self, rng: &mut Rng);
}

fn source<T>(v: Vec<T>) -> impl Iterator<Item = T> {
    Hinted::auto(v.into_iter()).map(|x| {
        tok::event(Ev::Call);
        x
    })
}

/// Steps an iterator from both ends; a panic in one step is caught and the iterator used further.
fn steps<T>(mut it: DynIt<'_, T>, rng: &mut Rng, stubborn: bool, mut see: impl FnMut(T)) {
    let n = rng.below(40);
    let dir = rng.below(3);
    for _ in 0..n {
        let back = it.double_ended() && (dir == 1 || (dir == 2 && rng.chance(1, 2)));
        let skip = if rng.chance(1, 10) { rng.below(4) } else { 0 };
        let mut one = || match (back, skip) {
            (false, 0) => it.next(),
            (true, 0) => it.next_back(),
            (false, s) => it.nth(s),
            (true, s) => it.nth_back(s),
        };
        let x = if stubborn {
            match catch_unwind(AssertUnwindSafe(one)) {
                Ok(x) => x,
                Err(_) => continue,
            }
        } else {
            one()
        };
        match x {
            Some(x) => see(x),
            None => {
                if rng.chance(1, 2) {
                    break;
                }
            }
        }
    }
    if rng.chance(1, 4) {
        let f = || drop(it.fold_rest(false));
        if stubborn {
            let _ = catch_unwind(AssertUnwindSafe(f));
        } else {
            f()
        }
    }
}

// ---------------------------------------------------------------- maps
type Model = Std<u32, u64>;
struct Maps<K: KeyT, V: ValT> {
    proto: Box<dyn DynMap<K, V>>,
    victim: Option<Box<dyn DynMap<K, V>>>,
    vmodel: Model,
    /// a second operand that may be consumed
    operand: Option<Box<dyn DynMap<K, V>>>,
    others: Vec<(Box<dyn DynMap<K, V>>, Model)>,
    uni: u32,
}
fn pairs<K: KeyT, V: ValT>(m: &Model) -> Vec<(K, V)> {
    m.iter().map(|(k, v)| (K::mk(*k, 0), V::mk(*v))).collect()
}
fn map_list<K: KeyT, V: ValT>(m: &dyn DynMap<K, V>, cap: usize) -> Vec<(u32, u64)> {
    let mut it = m.ro(Ro::Iter);
    let mut v = vec![];
    while let Some((k, x)) = it.next() {
        v.push((k.unwrap(), x.unwrap()));
        if v.len() > cap {
            break;
        }
    }
    v
}
fn map_same<K: KeyT, V: ValT>(m: &dyn DynMap<K, V>, want: &Model) -> Res {
    let got = map_list(m, want.len() + 3);
    let w: Vec<_> = want.iter().map(|(k, v)| (*k, *v)).collect();
    if got != w || m.len() != w.len() {
        let i = got.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
        return Err(format!(
            "{} entries (len() = {}), expected {}; at {i}: {:?}, expected {:?}",
            got.len(),
            m.len(),
            w.len(),
            got.get(i),
            w.get(i)
        ));
    }
    for (k, v) in want.iter().take(4) {
        if m.get(*k, false) != Some(*v) {
            return Err(format!("get({k}) = {:?}, expected {v}", m.get(*k, false)));
        }
    }
    m.check()
}
fn edit_map<K: KeyT, V: ValT>(m: &mut dyn DynMap<K, V>, md: &mut Model, n: usize, uni: u32, rng: &mut Rng) {
    for _ in 0..n {
        let k = rng.below(uni as usize) as u32;
        match rng.below(4) {
            0 => {
                m.remove(k, false);
                md.remove(&k);
            }
            1 => {
                if let Some(v) = m.get_mut(k, false) {
                    v.set(k as u64 + 9)
                }
                md.entry(k).and_modify(|v| *v = k as u64 + 9);
            }
            _ => {
                m.insert(K::mk(k, 0), V::mk(k as u64 + 5));
                md.insert(k, k as u64 + 5);
            }
        }
    }
}

const FIXED_OPS: &[&str] = &[
    "insert", "remove", "get_mut", "clear", "drop", "extend", "collect", "iter_mut", "into_iter", "clone_from", "get", "iter_all",
    "into_vec", "replace_by_new",
];
const MAP_OPS: &[&str] = &[
    "insert", "remove", "get_mut", "clear", "drop", "extend", "collect", "iter_mut", "into_iter", "clone_from", "get", "iter_all",
    "into_vec", "replace_by_new", "pop", "entry", "range", "range_mut", "append", "split_off", "retain", "compare", "from_array",
];
const AVL_OPS: &[&str] = &[
    "insert", "remove", "get_mut", "clear", "drop", "extend", "collect", "iter_mut", "into_iter", "clone_from", "get", "iter_all",
    "into_vec", "replace_by_new", "pop", "entry", "range", "range_mut", "append", "split_off", "retain", "compare", "from_array",
    "union", "intersect", "diff", "sym_diff", "join", "for_each", "for_each_mut", "remove_entry", "index", "extend_ref",
];

impl<K: KeyT, V: ValT> Maps<K, V> {
    fn key(&self, rng: &mut Rng) -> u32 {
        if !self.vmodel.is_empty() && rng.chance(2, 3) {
            *self.vmodel.keys().nth(rng.below(self.vmodel.len())).unwrap()
        } else {
            rng.below(self.uni as usize) as u32
        }
    }
    fn build_kind(rng: &mut Rng, kind: usize) -> Self {
        let proto = maps::pick::<K, V>(kind);
        let n = *rng.pick(&[0usize, 1, 2, 3, 5, 8, 13, 20, 34, 60]);
        let n = if kind == 6 && rng.chance(1, 8) { 300 } else { n };
        let uni = (n as u32 * 3 / 2).max(6);
        let mut vmodel: Model = Model::new();
        while vmodel.len() < n {
            let k = rng.below(uni as usize) as u32;
            vmodel.insert(k, k as u64 + 1);
        }
        let mut kv = pairs::<K, V>(&vmodel);
        if rng.chance(1, 2) {
            rng.shuffle(&mut kv);
        }
        let mut victim = proto.collect_new(kv);
        let mut others = vec![];
        for _ in 0..rng.below(4) {
            let (mut c, mut md) = (victim.clone_box(), vmodel.clone());
            let e = *rng.pick(&[0usize, 0, 1, 4]);
            if rng.chance(1, 2) {
                edit_map(&mut *c, &mut md, e, uni, rng);
            } else {
                // the clone keeps the old state, the victim moves on
                edit_map(&mut *victim, &mut vmodel, e, uni, rng);
            }
            others.push((c, md));
        }
        // an operand: one of the clones' relatives, or unrelated
        let operand = match rng.below(4) {
            0 => Some(victim.clone_box()),
            1 if !others.is_empty() => Some(others[rng.below(others.len())].0.clone_box()),
            2 => {
                let mut md = Model::new();
                for _ in 0..rng.below(n + 2) {
                    md.insert(rng.below(2 * uni as usize) as u32, 3);
                }
                Some(proto.collect_new(pairs(&md)))
            }
            _ => {
                let mut c = victim.clone_box();
                let mut md = vmodel.clone();
                edit_map(&mut *c, &mut md, 3, uni, rng);
                Some(c)
            }
        };
        Maps { proto, victim: Some(victim), vmodel, operand, others, uni }
    }
}

impl<K: KeyT, V: ValT> World for Maps<K, V> {
    fn build(rng: &mut Rng) -> Self {
        let kind = rng.weighted(&[7, 3, 3, 2, 3, 1, 4]);
        Self::build_kind(rng, kind)
    }
    fn name(&self) -> String {
        self.proto.name()
    }
    fn ops(&self) -> &'static [&'static str] {
        let c = self.proto.caps();
        if c.avl {
            AVL_OPS
        } else if c.full {
            MAP_OPS
        } else {
            FIXED_OPS
        }
    }
    fn readonly(op: &str) -> bool {
        matches!(op, "get" | "iter_all" | "range" | "compare" | "for_each" | "index" | "collect" | "from_array")
    }
    fn run(&mut self, op: &'static str, rng: &mut Rng) {
        let k = self.key(rng);
        let by_key = rng.chance(1, 3);
        match op {
            "insert" => {
                for _ in 0..rng.range(1, 3) {
                    let k = self.key(rng);
                    self.victim.as_mut().unwrap().insert(K::mk(k, 1), V::mk(77));
                }
            }
            "remove" => {
                for _ in 0..rng.range(1, 3) {
                    let k = self.key(rng);
                    self.victim.as_mut().unwrap().remove(k, by_key);
                }
            }
            "remove_entry" => drop(self.victim.as_mut().unwrap().remove_entry(k)),
            "get_mut" => {
                if let Some(v) = self.victim.as_mut().unwrap().get_mut(k, by_key) {
                    v.set(99)
                }
            }
            "clear" => self.victim.as_mut().unwrap().clear(),
            "drop" => drop(self.victim.take()),
            "replace_by_new" => *self.victim.as_mut().unwrap() = self.proto.new_empty(),
            "extend" => {
                let v: Vec<(K, V)> = (0..rng.below(8)).map(|_| (K::mk(self.key(rng), 1), V::mk(3))).collect();
                self.victim.as_mut().unwrap().extend(&mut source(v))
            }
            "extend_ref" => {
                let v: Vec<(K, V)> = (0..rng.below(8)).map(|_| (K::mk(self.key(rng), 1), V::mk(3))).collect();
                self.victim.as_mut().unwrap().extend_ref(&v)
            }
            "collect" => {
                let v: Vec<(K, V)> = (0..rng.below(30)).map(|_| (K::mk(self.key(rng), 1), V::mk(3))).collect();
                let mut m = self.proto.new_empty();
                if rng.chance(1, 2) {
                    m.extend(&mut source(v));
                    drop(m)
                } else {
                    drop(self.proto.collect_new(v))
                }
            }
            "from_array" => {
                let a = [0u32; 4].map(|_| (K::mk(self.key(rng), 1), V::mk(4)));
                drop(self.proto.from_arr(a))
            }
            "iter_mut" => {
                let stubborn = rng.chance(1, 2);
                let kind = *rng.pick(&[Rw::IterMut, Rw::ValuesMut]);
                let it = self.victim.as_mut().unwrap().rw(kind);
                let mut kept: Vec<&mut V> = vec![];
                steps(it, rng, stubborn, |(_, v)| {
                    v.set(v.get() + 1);
                    kept.push(v);
                });
                for v in kept {
                    v.set(v.get() + 1)
                }
            }
            "range_mut" => {
                let stubborn = rng.chance(1, 2);
                let (a, b) = (self.key(rng), self.key(rng));
                let bd = (Included(a.min(b)), if rng.chance(1, 2) { Included(a.max(b)) } else { Unbounded });
                let it = self.victim.as_mut().unwrap().range_mut(bd, by_key);
                let mut kept: Vec<&mut V> = vec![];
                steps(it, rng, stubborn, |(_, v)| {
                    v.set(v.get() + 1);
                    kept.push(v);
                });
                for v in kept {
                    v.set(v.get() + 1)
                }
            }
            "into_iter" => {
                let stubborn = rng.chance(1, 2);
                let m = if rng.chance(1, 2) { self.victim.as_ref().unwrap().clone_box() } else { self.victim.take().unwrap() };
                let kind = *rng.pick(&[Own::IntoIter, Own::IntoIter, Own::IntoKeys, Own::IntoValues]);
                let mut kept = vec![];
                let keep = rng.chance(1, 2);
                steps(m.own(kind), rng, stubborn, |x| {
                    if keep {
                        kept.push(x)
                    } else {
                        drop(x)
                    }
                });
            }
            "into_vec" => {
                let m = if rng.chance(1, 2) { self.victim.as_ref().unwrap().clone_box() } else { self.victim.take().unwrap() };
                drop(m.into_vec())
            }
            "clone_from" => {
                let v = self.victim.as_mut().unwrap();
                match &self.operand {
                    Some(o) => v.clone_from_dyn(&**o),
                    None => (),
                }
            }
            "get" => {
                let v = self.victim.as_ref().unwrap();
                v.get(k, by_key);
                if v.caps().full {
                    v.contains(k, by_key);
                    v.get_kv(k, by_key);
                }
            }
            "index" => {
                if let Some(k) = self.vmodel.keys().next() {
                    self.victim.as_ref().unwrap().index(*k);
                }
            }
            "iter_all" => {
                let v = self.victim.as_ref().unwrap();
                steps(v.ro(Ro::Iter), rng, false, |_| ());
            }
            "range" => {
                let (a, b) = (self.key(rng), self.key(rng));
                let v = self.victim.as_ref().unwrap();
                steps(v.range((Excluded(a.min(b)), Included(a.max(b).max(a.min(b) + 1))), by_key), rng, true, |_| ());
            }
            "compare" => {
                let v = self.victim.as_ref().unwrap();
                let o = self.operand.as_ref().unwrap();
                v.eq_dyn(&**o);
                v.cmp_dyn(&**o);
                v.pcmp_dyn(&**o);
            }
            "pop" => {
                let last = rng.chance(1, 2);
                for _ in 0..rng.range(1, 3) {
                    drop(self.victim.as_mut().unwrap().pop(last));
                }
            }
            "entry" => {
                let at = *rng.pick(&[None, None, None, Some(false), Some(true)]);
                let eop = *rng.pick(&[
                    EntryOp::OrInsert,
                    EntryOp::OrInsertWith,
                    EntryOp::OrInsertWithKey,
                    EntryOp::OrDefault,
                    EntryOp::ModifyOnly,
                ]);
                self.victim.as_mut().unwrap().entry_op(k, at, rng.chance(1, 2), eop, 5);
            }
            "append" => {
                let mut o = self.operand.take().unwrap();
                self.victim.as_mut().unwrap().append(&mut *o);
                self.operand = Some(o);
            }
            "split_off" => {
                let o = self.victim.as_mut().unwrap().split_off(k, by_key);
                self.operand = Some(o);
            }
            "retain" => {
                let p = rng.range(0, 3) as u64;
                let set = rng.chance(1, 2);
                self.victim.as_mut().unwrap().retain(&mut |k, v| {
                    tok::event(Ev::Call);
                    if set {
                        v.set(v.get() + 1)
                    }
                    mix(k.key() as u64) % 4 > p
                });
            }
            "union" | "intersect" | "diff" | "sym_diff" => {
                let b = match op {
                    "union" => Bin::Union,
                    "intersect" => Bin::Inter,
                    "diff" => Bin::Diff,
                    _ => Bin::SymDiff,
                };
                let (v, o) = (self.victim.take().unwrap(), self.operand.take().unwrap());
                let r = if rng.chance(1, 2) { v.binary(b, o) } else { o.binary(b, v) };
                self.operand = Some(r);
            }
            "join" => {
                // keys of the right operand and the pivot lie above those of the left one
                let mut r = self.proto.new_empty();
                for j in 0..rng.below(20) as u32 {
                    r.insert(K::mk(5000 + j, 0), V::mk(1));
                }
                let v = self.victim.take().unwrap();
                self.operand = Some(v.join(K::mk(4000, 0), V::mk(4), r));
            }
            "for_each" => self.victim.as_ref().unwrap().for_each(&mut |_, _| tok::event(Ev::Call)),
            "for_each_mut" => self.victim.as_mut().unwrap().for_each_mut(&mut |_, v| {
                v.set(v.get() + 1);
                tok::event(Ev::Call);
            }),
            _ => unreachable!(),
        }
    }
    fn others_intact(&self) -> Res {
        for (i, (m, md)) in self.others.iter().enumerate() {
            map_same(&**m, md).map_err(|e| format!("another map ({i}): {e}"))?;
        }
        Ok(())
    }
    fn victim_intact(&self) -> Res {
        match &self.victim {
            Some(v) => map_same(&**v, &self.vmodel),
            None => Ok(()),
        }
    }
    fn victim_usable(&mut self, rng: &mut Rng) -> Res {
        for m in [self.victim.as_mut(), self.operand.as_mut()].into_iter().flatten() {
            label(P);
            let l = map_list(&**m, 2000);
            if l.len() > 1999 {
                return Err("iteration does not end".into());
            }
            // what it still holds can be read in every way, with one answer
            let _ = (m.len(), m.is_empty());
            if let Some(w) = l.windows(2).find(|w| w[0].0 >= w[1].0) {
                return Err(format!("iteration yields key {} and then {}", w[0].0, w[1].0));
            }
            if m.len() < l.len() {
                return Err(format!("len() = {} with {} entries", m.len(), l.len()));
            }
            for (k, v) in &l {
                if m.get(*k, false) != Some(*v) {
                    return Err(format!("get({k}) = {:?} where iteration yields {v}", m.get(*k, false)));
                }
            }
            for k in 0..self.uni.min(20) {
                if m.get(k, true).is_some() != l.iter().any(|e| e.0 == k) {
                    return Err(format!("get({k}) = {:?}, iteration disagrees", m.get(k, true)));
                }
            }
            let mut back = vec![];
            let mut it = m.ro(Ro::Iter);
            while let Some((k, x)) = it.next_back() {
                back.push((k.unwrap(), x.unwrap()));
                if back.len() > l.len() {
                    break;
                }
            }
            drop(it);
            back.reverse();
            if back != l {
                return Err(format!("{} entries by iteration from the front, {} from the back", l.len(), back.len()));
            }
            if m.caps().full {
                let (a, b) = (m.first_last(false), m.first_last(true));
                if a != l.first().copied() || b != l.last().copied() {
                    return Err(format!("first and last are {a:?} and {b:?}, iteration disagrees"));
                }
                let _ = m.debug();
                let mut it = m.range((Included(self.uni / 4), Unbounded), false);
                let mut n = 0;
                while it.next().is_some() {
                    n += 1
                }
                if n != l.iter().filter(|e| e.0 >= self.uni / 4).count() {
                    return Err(format!("a range yields {n} entries, iteration disagrees"));
                }
            }
            let mut it = m.clone_box().own(Own::IntoIter);
            let mut n = 0;
            while it.next().is_some() {
                n += 1
            }
            if n != l.len() {
                return Err(format!("consuming a clone yields {n} entries, iteration {}", l.len()));
            }
            drop(it);
            // some go on being used before they are cleared
            if rng.chance(1, 2) {
                let mut md = Model::new();
                let r = catch_unwind(AssertUnwindSafe(|| {
                    edit_map(&mut **m, &mut md, 6, self.uni, rng);
                    let mut it = m.rw(Rw::IterMut);
                    while it.next().is_some() {}
                }));
                // refusing is fine, damage is not
                let _ = r;
            }
            m.clear();
            if !m.is_empty() || m.len() != 0 || !map_list(&**m, 3).is_empty() {
                return Err(format!("after clear(): len() = {}, {} entries", m.len(), map_list(&**m, 3).len()));
            }
            let mut md = Model::new();
            for _ in 0..12 {
                let k = rng.below(40) as u32;
                m.insert(K::mk(k, 0), V::mk(k as u64));
                md.insert(k, k as u64);
            }
            edit_map(&mut **m, &mut md, 6, 40, rng);
            map_same(&**m, &md).map_err(|e| format!("after refilling: {e}"))?;
        }
        Ok(())
    }
    fn others_work(&mut self, rng: &mut Rng) -> Res {
        if self.others.is_empty() {
            return Ok(());
        }
        let i = rng.below(self.others.len());
        let uni = self.uni;
        let (m, md) = &mut self.others[i];
        edit_map(&mut **m, md, 8, uni, rng);
        self.others_intact()
    }
    fn drop_all(mut self, rng: &mut Rng) {
        if rng.chance(1, 2) {
            self.victim = None;
            self.operand = None;
        }
        while !self.others.is_empty() {
            let i = rng.below(self.others.len());
            self.others.swap_remove(i);
        }
    }
}

// ---------------------------------------------------------------- sets
struct Sets<T: KeyT> {
    proto: Box<dyn DynSet<T>>,
    victim: Option<Box<dyn DynSet<T>>>,
    vmodel: Vec<u32>,
    operand: Option<Box<dyn DynSet<T>>>,
    others: Vec<(Box<dyn DynSet<T>>, Vec<u32>)>,
    uni: u32,
}
fn set_list<T: KeyT>(s: &dyn DynSet<T>, cap: usize) -> Vec<u32> {
    let mut it = s.ro(SetIt::Iter);
    let mut v = vec![];
    while let Some((k, _)) = it.next() {
        v.push(k);
        if v.len() > cap {
            break;
        }
    }
    v
}
fn set_same<T: KeyT>(s: &dyn DynSet<T>, want: &[u32]) -> Res {
    let got = set_list(s, want.len() + 3);
    if got != want || s.len() != want.len() {
        return Err(format!("elements {got:?} (len() = {}), expected {want:?}", s.len()));
    }
    for k in want.iter().take(4) {
        if !s.contains(*k, false) {
            return Err(format!("contains({k}) is false"));
        }
    }
    s.check()
}
fn edit_set<T: KeyT>(s: &mut dyn DynSet<T>, md: &mut Vec<u32>, n: usize, uni: u32, rng: &mut Rng) {
    for _ in 0..n {
        let k = rng.below(uni as usize) as u32;
        if rng.chance(1, 3) {
            s.remove(k, false);
            md.retain(|x| *x != k);
        } else {
            s.insert(T::mk(k, 0));
            if let Err(i) = md.binary_search(&k) {
                md.insert(i, k)
            }
        }
    }
}
const SET_OPS: &[&str] = &[
    "insert", "remove", "take", "replace", "clear", "drop", "extend", "extend_ref", "collect", "from_array", "into_iter", "clone_from", "get", "pop",
    "range", "append", "split_off", "retain", "compare", "lazy", "operator", "consume", "relations", "replace_by_new",
];
impl<T: KeyT> Sets<T> {
    fn key(&self, rng: &mut Rng) -> u32 {
        if !self.vmodel.is_empty() && rng.chance(2, 3) {
            self.vmodel[rng.below(self.vmodel.len())]
        } else {
            rng.below(self.uni as usize) as u32
        }
    }
    fn mk(v: &[u32]) -> Vec<T> {
        v.iter().map(|k| T::mk(*k, 0)).collect()
    }
}
fn bin(rng: &mut Rng) -> Bin {
    *rng.pick(&[Bin::Union, Bin::Inter, Bin::Diff, Bin::SymDiff])
}
impl<T: KeyT> World for Sets<T> {
    fn build(rng: &mut Rng) -> Self {
        let kind = rng.weighted(&[6, 3, 3, 2, 3, 1]);
        let proto = sets::pick::<T>(kind);
        let n = *rng.pick(&[0usize, 1, 2, 3, 5, 8, 13, 20, 34, 60]);
        let uni = (n as u32 * 3 / 2).max(6);
        let mut vmodel = vec![];
        for _ in 0..n {
            vmodel.push(rng.below(uni as usize) as u32);
        }
        vmodel.sort();
        vmodel.dedup();
        let mut victim = proto.collect_new(Self::mk(&vmodel));
        let mut others = vec![];
        for _ in 0..rng.below(4) {
            let (mut c, mut md) = (victim.clone_box(), vmodel.clone());
            let e = *rng.pick(&[0usize, 0, 1, 4]);
            if rng.chance(1, 2) {
                edit_set(&mut *c, &mut md, e, uni, rng);
            } else {
                edit_set(&mut *victim, &mut vmodel, e, uni, rng);
            }
            others.push((c, md));
        }
        let operand = if rng.chance(1, 2) {
            let mut c = victim.clone_box();
            let mut md = vmodel.clone();
            let e = rng.below(6);
            edit_set(&mut *c, &mut md, e, 2 * uni, rng);
            Some(c)
        } else {
            let m = if rng.chance(1, 3) { 1 } else { n + 1 };
            let v: Vec<u32> = (0..rng.below(m)).map(|_| rng.below(2 * uni as usize) as u32).collect();
            Some(proto.collect_new(Self::mk(&v)))
        };
        Sets { proto, victim: Some(victim), vmodel, operand, others, uni }
    }
    fn name(&self) -> String {
        self.proto.name()
    }
    fn ops(&self) -> &'static [&'static str] {
        SET_OPS
    }
    fn readonly(op: &str) -> bool {
        matches!(op, "get" | "range" | "compare" | "lazy" | "operator" | "relations" | "collect" | "from_array")
    }
    fn run(&mut self, op: &'static str, rng: &mut Rng) {
        let k = self.key(rng);
        let by_key = rng.chance(1, 3);
        match op {
            "insert" => {
                for _ in 0..rng.range(1, 3) {
                    let k = self.key(rng);
                    self.victim.as_mut().unwrap().insert(T::mk(k, 1));
                }
            }
            "remove" => {
                self.victim.as_mut().unwrap().remove(k, by_key);
            }
            "take" => drop(self.victim.as_mut().unwrap().take(k, by_key)),
            "replace" => drop(self.victim.as_mut().unwrap().replace(T::mk(k, 1))),
            "clear" => self.victim.as_mut().unwrap().clear(),
            "drop" => drop(self.victim.take()),
            "replace_by_new" => *self.victim.as_mut().unwrap() = self.proto.new_empty(),
            "extend" => {
                let v: Vec<T> = (0..rng.below(8)).map(|_| T::mk(self.key(rng), 1)).collect();
                self.victim.as_mut().unwrap().extend(&mut source(v))
            }
            "extend_ref" => {
                let v: Vec<T> = (0..rng.below(8)).map(|_| T::mk(self.key(rng), 1)).collect();
                self.victim.as_mut().unwrap().extend_ref(&v)
            }
            "collect" => {
                let v: Vec<T> = (0..rng.below(30)).map(|_| T::mk(self.key(rng), 1)).collect();
                drop(self.proto.collect_new(v))
            }
            "from_array" => {
                let a = [0u32; 4].map(|_| T::mk(self.key(rng), 1));
                drop(self.proto.from_arr(a))
            }
            "into_iter" => {
                let stubborn = rng.chance(1, 2);
                let m = if rng.chance(1, 2) { self.victim.as_ref().unwrap().clone_box() } else { self.victim.take().unwrap() };
                let mut kept = vec![];
                let keep = rng.chance(1, 2);
                steps(m.own(), rng, stubborn, |x| {
                    if keep {
                        kept.push(x)
                    } else {
                        drop(x)
                    }
                });
            }
            "clone_from" => {
                let o = self.operand.as_ref().unwrap();
                self.victim.as_mut().unwrap().clone_from_dyn(&**o)
            }
            "get" => {
                let v = self.victim.as_ref().unwrap();
                v.get(k, by_key);
                v.contains(k, by_key);
            }
            "pop" => {
                let last = rng.chance(1, 2);
                for _ in 0..rng.range(1, 3) {
                    drop(self.victim.as_mut().unwrap().pop(last));
                }
            }
            "range" => {
                let (a, b) = (self.key(rng), self.key(rng));
                let v = self.victim.as_ref().unwrap();
                steps(v.range((Excluded(a.min(b)), Included(a.max(b).max(a.min(b) + 1))), by_key), rng, true, |_| ());
            }
            "append" => {
                let mut o = self.operand.take().unwrap();
                self.victim.as_mut().unwrap().append(&mut *o);
                self.operand = Some(o);
            }
            "split_off" => {
                let o = self.victim.as_mut().unwrap().split_off(k, by_key);
                self.operand = Some(o);
            }
            "retain" => {
                let p = rng.range(0, 3) as u64;
                self.victim.as_mut().unwrap().retain(&mut |k| {
                    tok::event(Ev::Call);
                    mix(k.key() as u64) % 4 > p
                });
            }
            "compare" => {
                let (v, o) = (self.victim.as_ref().unwrap(), self.operand.as_ref().unwrap());
                v.eq_dyn(&**o);
                v.cmp_dyn(&**o);
                v.pcmp_dyn(&**o);
            }
            "relations" => {
                let (v, o) = (self.victim.as_ref().unwrap(), self.operand.as_ref().unwrap());
                v.relations(&**o);
            }
            "lazy" => {
                let (v, o) = (self.victim.as_ref().unwrap(), self.operand.as_ref().unwrap());
                steps(v.lazy(bin(rng), &**o), rng, true, |_| ());
            }
            "operator" => {
                let (v, o) = (self.victim.as_ref().unwrap(), self.operand.as_ref().unwrap());
                drop(v.operator(bin(rng), &**o));
            }
            "consume" => {
                let b = bin(rng);
                let (v, o) = (self.victim.take().unwrap(), self.operand.take().unwrap());
                self.operand = Some(if rng.chance(1, 2) { v.consume(b, o) } else { o.consume(b, v) });
            }
            _ => unreachable!(),
        }
    }
    fn others_intact(&self) -> Res {
        for (i, (m, md)) in self.others.iter().enumerate() {
            set_same(&**m, md).map_err(|e| format!("another set ({i}): {e}"))?;
        }
        Ok(())
    }
    fn victim_intact(&self) -> Res {
        match &self.victim {
            Some(v) => set_same(&**v, &self.vmodel),
            None => Ok(()),
        }
    }
    fn victim_usable(&mut self, rng: &mut Rng) -> Res {
        for m in [self.victim.as_mut(), self.operand.as_mut()].into_iter().flatten() {
            let l = set_list(&**m, 2000);
            if l.len() > 1999 {
                return Err("iteration does not end".into());
            }
            let _ = (m.len(), m.is_empty(), m.debug());
            if let Some(w) = l.windows(2).find(|w| w[0] >= w[1]) {
                return Err(format!("iteration yields element {} and then {}", w[0], w[1]));
            }
            if m.len() < l.len() {
                return Err(format!("len() = {} with {} elements", m.len(), l.len()));
            }
            for k in l.iter().copied().chain(0..self.uni.min(20)) {
                if m.contains(k, false) != l.contains(&k) {
                    return Err(format!("contains({k}) = {}, iteration disagrees", m.contains(k, false)));
                }
            }
            let (a, b) = (m.first_last(false).map(|e| e.0), m.first_last(true).map(|e| e.0));
            if a != l.first().copied() || b != l.last().copied() {
                return Err(format!("first and last are {a:?} and {b:?}, iteration disagrees"));
            }
            let mut it = m.range((Included(self.uni / 4), Unbounded), false);
            let mut n = 0;
            while it.next().is_some() {
                n += 1
            }
            if n != l.iter().filter(|e| **e >= self.uni / 4).count() {
                return Err(format!("a range yields {n} elements, iteration disagrees"));
            }
            drop(it);
            if rng.chance(1, 2) {
                let mut md = vec![];
                let _ = catch_unwind(AssertUnwindSafe(|| edit_set(&mut **m, &mut md, 6, self.uni, rng)));
            }
            m.clear();
            if !m.is_empty() || m.len() != 0 || !set_list(&**m, 3).is_empty() {
                return Err(format!("after clear(): len() = {}, {} elements", m.len(), set_list(&**m, 3).len()));
            }
            let mut md = vec![];
            edit_set(&mut **m, &mut md, 16, 40, rng);
            set_same(&**m, &md).map_err(|e| format!("after refilling: {e}"))?;
        }
        Ok(())
    }
    fn others_work(&mut self, rng: &mut Rng) -> Res {
        if self.others.is_empty() {
            return Ok(());
        }
        let i = rng.below(self.others.len());
        let uni = self.uni;
        let (m, md) = &mut self.others[i];
        edit_set(&mut **m, md, 8, uni, rng);
        self.others_intact()
    }
    fn drop_all(mut self, rng: &mut Rng) {
        if rng.chance(1, 2) {
            self.victim = None;
            self.operand = None;
        }
        while !self.others.is_empty() {
            let i = rng.below(self.others.len());
            self.others.swap_remove(i);
        }
    }
}

// ---------------------------------------------------------------- stacks
struct Stacks<T: ValT> {
    victim: Option<Stack<T>>,
    vmodel: Vec<u64>,
    operand: Option<Stack<T>>,
    others: Vec<(Stack<T>, Vec<u64>)>,
}
fn stack_same<T: ValT>(s: &Stack<T>, want: &[u64]) -> Res {
    let mut got: Vec<u64> = s.iter().take(want.len() + 3).map(|x| x.get()).collect();
    got.reverse();
    if got != want || s.len() != want.len() || s.is_empty() != want.is_empty() {
        return Err(format!("elements {got:?} (len() = {}), expected {want:?}", s.len()));
    }
    Ok(())
}
fn edit_stack<T: ValT>(s: &mut Stack<T>, md: &mut Vec<u64>, n: usize, rng: &mut Rng) {
    for _ in 0..n {
        match rng.below(4) {
            0 => {
                s.pop();
                md.pop();
            }
            1 => {
                if let (Some(x), Some(m)) = (s.top_mut(), md.last_mut()) {
                    x.set(55);
                    *m = 55;
                }
            }
            _ => {
                let v = rng.below(100) as u64;
                s.push(T::mk(v));
                md.push(v);
            }
        }
    }
}
const STACK_OPS: &[&str] = &[
    "push", "pop", "top_mut", "remove", "split_off", "clear", "drop", "extend", "collect", "iter_mut", "into_iter", "clone_from", "contains",
    "compare", "from_vec", "iter_all", "replace_by_new",
];
impl<T: ValT> World for Stacks<T> {
    fn build(rng: &mut Rng) -> Self {
        let n = *rng.pick(&[0usize, 1, 2, 3, 5, 8, 13, 30]);
        let mut vmodel: Vec<u64> = (0..n as u64).collect();
        let mut victim: Stack<T> = vmodel.iter().map(|v| T::mk(*v)).collect();
        let mut others = vec![];
        for _ in 0..rng.below(4) {
            let (mut c, mut md) = (victim.clone(), vmodel.clone());
            let e = rng.below(4);
            if rng.chance(1, 2) {
                edit_stack(&mut c, &mut md, e, rng);
            } else {
                edit_stack(&mut victim, &mut vmodel, e, rng);
            }
            others.push((c, md));
        }
        let operand = Some(if rng.chance(1, 2) { victim.clone() } else { (0..5).map(T::mk).collect() });
        Stacks { victim: Some(victim), vmodel, operand, others }
    }
    fn name(&self) -> String {
        format!("Stack<{}>", T::NAME)
    }
    fn ops(&self) -> &'static [&'static str] {
        STACK_OPS
    }
    fn readonly(op: &str) -> bool {
        matches!(op, "contains" | "compare" | "iter_all" | "collect" | "from_vec")
    }
    fn run(&mut self, op: &'static str, rng: &mut Rng) {
        let n = self.vmodel.len();
        match op {
            "push" => self.victim.as_mut().unwrap().push(T::mk(1)),
            "pop" => {
                for _ in 0..rng.range(1, 3) {
                    drop(self.victim.as_mut().unwrap().pop())
                }
            }
            "top_mut" => {
                if let Some(x) = self.victim.as_mut().unwrap().top_mut() {
                    x.set(4)
                }
            }
            "remove" => {
                if n > 0 {
                    drop(self.victim.as_mut().unwrap().remove(rng.below(n)))
                }
            }
            "split_off" => {
                let o = self.victim.as_mut().unwrap().split_off(rng.below(n + 1));
                self.operand = Some(o)
            }
            "clear" => self.victim.as_mut().unwrap().clear(),
            "drop" => drop(self.victim.take()),
            "replace_by_new" => self.victim = Some(Stack::new()),
            "extend" => {
                let v: Vec<T> = (0..rng.below(8)).map(|_| T::mk(3)).collect();
                self.victim.as_mut().unwrap().extend(source(v))
            }
            "collect" => {
                let v: Vec<T> = (0..rng.below(8)).map(|_| T::mk(3)).collect();
                drop(source(v).collect::<Stack<T>>())
            }
            "from_vec" => {
                let v: Vec<T> = (0..rng.below(8)).map(|_| T::mk(3)).collect();
                drop(Stack::from(v))
            }
            "iter_mut" => {
                let stubborn = rng.chance(1, 2);
                let it: DynIt<&mut T> = Box::new(Fw(self.victim.as_mut().unwrap().iter_mut(), |x| x));
                let mut kept: Vec<&mut T> = vec![];
                steps(it, rng, stubborn, |x| {
                    x.set(x.get() + 1);
                    kept.push(x);
                });
                for x in kept {
                    x.set(x.get() + 1)
                }
            }
            "into_iter" => {
                let stubborn = rng.chance(1, 2);
                let m = if rng.chance(1, 2) { self.victim.as_ref().unwrap().clone() } else { self.victim.take().unwrap() };
                let it: DynIt<T> = Box::new(Fw(m.into_iter(), |x| x));
                let mut kept = vec![];
                let keep = rng.chance(1, 2);
                steps(it, rng, stubborn, |x| {
                    if keep {
                        kept.push(x)
                    } else {
                        drop(x)
                    }
                });
            }
            "clone_from" => {
                let o = self.operand.as_ref().unwrap();
                self.victim.as_mut().unwrap().clone_from(o)
            }
            "contains" => {
                let x = T::mk(rng.below(40) as u64);
                self.victim.as_ref().unwrap().contains(&x);
            }
            "compare" => {
                let (v, o) = (self.victim.as_ref().unwrap(), self.operand.as_ref().unwrap());
                let _ = (v == o, v.cmp(o), v.partial_cmp(o));
            }
            "iter_all" => {
                self.victim.as_ref().unwrap().iter().for_each(|x| {
                    tok::event(Ev::Call);
                    x.get();
                });
            }
            _ => unreachable!(),
        }
    }
    fn others_intact(&self) -> Res {
        for (i, (m, md)) in self.others.iter().enumerate() {
            stack_same(m, md).map_err(|e| format!("another stack ({i}): {e}"))?;
        }
        Ok(())
    }
    fn victim_intact(&self) -> Res {
        match &self.victim {
            Some(v) => stack_same(v, &self.vmodel),
            None => Ok(()),
        }
    }
    fn victim_usable(&mut self, rng: &mut Rng) -> Res {
        for m in [self.victim.as_mut(), self.operand.as_mut()].into_iter().flatten() {
            if m.iter().take(3000).count() > 2999 {
                return Err("iteration does not end".into());
            }
            m.iter().for_each(|x| {
                x.get();
            });
            let _ = format!("{m:?}");
            let l: Vec<u64> = m.iter().map(|x| x.get()).collect();
            // a length above the number of elements is tolerated after a panic, a length below it is not
            if m.len() < l.len() || m.is_empty() && !l.is_empty() || m.top().map(|x| x.get()) != l.first().copied() {
                return Err(format!("{} elements, but len() = {}, is_empty() = {}, top() = {:?}", l.len(), m.len(), m.is_empty(), m.top().map(|x| x.get())));
            }
            let drained: Vec<u64> = m.clone().into_iter().map(|x| x.get()).collect();
            if drained != l {
                return Err(format!("consuming a clone yields {drained:?}, iteration {l:?}"));
            }
            if rng.chance(1, 2) && m.len() == l.len() && m.is_empty() == l.is_empty() {
                // and it can be used on as it is
                let mut md: Vec<u64> = l.iter().rev().copied().collect();
                edit_stack(m, &mut md, 8, rng);
                stack_same(m, &md).map_err(|e| format!("used on: {e}"))?;
            }
            let mut md = vec![];
            if rng.chance(1, 2) {
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    let c = m.clone();
                    edit_stack(m, &mut md, 6, rng);
                    m.iter_mut().for_each(|x| x.set(1));
                    drop(c);
                }));
            }
            m.clear();
            if !m.is_empty() || m.len() != 0 || m.iter().count() != 0 {
                return Err(format!("after clear(): len() = {}, {} elements", m.len(), m.iter().count()));
            }
            let mut md = vec![];
            edit_stack(m, &mut md, 12, rng);
            stack_same(m, &md).map_err(|e| format!("after refilling: {e}"))?;
        }
        Ok(())
    }
    fn others_work(&mut self, rng: &mut Rng) -> Res {
        if self.others.is_empty() {
            return Ok(());
        }
        let i = rng.below(self.others.len());
        let (m, md) = &mut self.others[i];
        edit_stack(m, md, 8, rng);
        self.others_intact()
    }
    fn drop_all(mut self, rng: &mut Rng) {
        if rng.chance(1, 2) {
            self.victim = None;
            self.operand = None;
        }
        while !self.others.is_empty() {
            let i = rng.below(self.others.len());
            self.others.swap_remove(i);
        }
    }
}

// ---------------------------------------------------------------- the loop over injection points
fn inject<W: World>(s: u64, st: &mut Stats, states: &mut Vec<u64>, max_points: usize) -> Result<u64, Viol> {
    let v = |m: String| Viol { prop: P, msg: m };
    // dry run
    let mut r0 = Rng::new(s);
    let mask = *r0.pick(&[1u8, 2, 4, 8, 15, 2, 4, 15]);
    let go = |k: u64, st: &mut Stats, op: Option<&'static str>| -> Result<(u64, &'static str, u8), Viol> {
        tok::reset();
        let mut rng = Rng::new(s ^ 0xBEEF);
        let mut w = W::build(&mut rng);
        let name = w.name();
        let ops = w.ops();
        let op = op.unwrap_or(ops[rng.clone().below(ops.len())]);
        let mut r = rng.clone();
        doing(|| format!("{name}: {op}, panic at event {k} (kinds {mask:#x})"));
        tok::arm(k, mask);
        let res = catch_unwind(AssertUnwindSafe(|| w.run(op, &mut r)));
        let (ev, fired) = (tok::events(), tok::fired());
        tok::disarm();
        let kind = match fired {
            1 => "comparison",
            2 => "clone",
            4 => "drop",
            8 => "closure or source iterator",
            _ => "nothing",
        };
        let mut ctx = format!("{name}: {op} with a panic in a {kind} (event {k} of kinds {mask:#x})");
        if res.is_err() && fired == 0 {
            return Err(v(format!("{name}: {op}: panic that was not injected: {}", panic_msg())));
        }
        // the same again and again on what the first panic left behind
        let mut again = 0;
        if fired != 0 && s % 3 == 0 && k > 0 {
            let mut rr = Rng::new(s ^ k);
            for _ in 0..rr.range(1, 8) {
                let mut r = if rr.chance(1, 2) { rng.clone() } else { Rng::new(rr.u64()) };
                tok::arm(if rr.chance(1, 2) { k } else { 1 + rr.below(ev as usize) as u64 }, mask);
                // an update of a collection that a panic left half updated may itself panic, but only that
                let _ = catch_unwind(AssertUnwindSafe(|| w.run(op, &mut r)));
                again += (tok::fired() != 0) as u64;
                tok::disarm();
            }
            st.add("repeated_panics", again);
            ctx += &format!(", repeated with {again} more panics");
        }
        let e = tok::take_errs();
        if let Some(e) = e.first() {
            std::mem::forget(w);
            return Err(v(format!("{ctx}: {e}")));
        }
        let mut r = rng.clone();
        let after = catch_unwind(AssertUnwindSafe(|| -> Res {
            w.others_intact()?;
            if W::readonly(op) {
                w.victim_intact().map_err(|e| format!("the collection that was only read: {e}"))?;
            }
            w.victim_usable(&mut r)?;
            w.others_intact()?;
            w.others_work(&mut r)
        }));
        let bad = match after {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(_) => Some(format!("panic in later use: {}", panic_msg())),
        };
        if let Some(e) = tok::take_errs().first() {
            std::mem::forget(w);
            return Err(v(format!("{ctx}: later: {e}")));
        }
        if let Some(e) = bad {
            std::mem::forget(w);
            return Err(v(format!("{ctx}: {e}")));
        }
        if catch_unwind(AssertUnwindSafe(|| w.drop_all(&mut r))).is_err() {
            return Err(v(format!("{ctx}: panic in the final drop: {}", panic_msg())));
        }
        if let Some(e) = tok::take_errs().first() {
            return Err(v(format!("{ctx}: at the final drop: {e}")));
        }
        if fired != 0 {
            st.add(
                match fired {
                    1 => "panics_in_comparison",
                    2 => "panics_in_clone",
                    4 => "panics_in_drop",
                    _ => "panics_in_closure_or_source",
                },
                1,
            );
        } else if tok::live() != (0, 0) {
            return Err(Viol { prop: "C05", msg: format!("{name}: {op}: {:?} keys and values leaked without any panic", tok::live()) });
        }
        Ok((ev, op, fired))
    };
    let (n, op, _) = go(0, st, None)?;
    let mut points: Vec<u64> = (1..=n).collect();
    if points.len() > max_points {
        let mut p = vec![1, 2, n - 1, n];
        while p.len() < max_points {
            p.push(1 + r0.below(n as usize) as u64);
        }
        points = p;
    }
    for k in &points {
        let (_, _, fired) = go(*k, st, Some(op))?;
        if fired != 0 {
            states.push(mix(crate::hash64(op) ^ (fired as u64) << 40 ^ (*k).min(60) << 8));
        }
    }
    st.add("worlds", 1);
    st.add("events_available", n);
    Ok(n)
}

pub fn case(seed: u64, idx: u64, max_points: usize) -> CaseOut {
    label(P);
    let mut rng = Rng::derive(seed ^ 0x9a1c, idx);
    let s = rng.u64();
    let mut st = Stats::default();
    let mut states = vec![];
    use tok::{BKey, BVal, SKey, SVal};
    let r = match rng.below(12) {
        0..=2 => inject::<Maps<SKey, SVal>>(s, &mut st, &mut states, max_points),
        3..=4 => inject::<Maps<BKey, BVal>>(s, &mut st, &mut states, max_points),
        5 => inject::<Maps<SKey, BVal>>(s, &mut st, &mut states, max_points),
        6 => inject::<Maps<BKey, SVal>>(s, &mut st, &mut states, max_points),
        7..=8 => inject::<Sets<SKey>>(s, &mut st, &mut states, max_points),
        9 => inject::<Sets<BKey>>(s, &mut st, &mut states, max_points),
        10 => inject::<Stacks<SVal>>(s, &mut st, &mut states, max_points),
        _ => inject::<Stacks<BVal>>(s, &mut st, &mut states, max_points),
    };
    tok::disarm();
    let mut out = CaseOut::default();
    match r {
        Ok(n) => {
            out.nontrivial = n > 0;
        }
        Err(v) => out.viols.push(v),
    }
    out.sig = mix(s);
    out.states = states;
    out.stats = st;
    out
}
