//! Model-based workload over a pool of maps that share parts, with monitors for every observable.
#![cfg_attr(not(feature = "maps"), allow(dead_code, unused_imports))]
use crate::api::*;
use crate::rng::{mix, Rng};
use crate::run::{doing, label, CaseOut, Stats, Viol};
use crate::tok::{self, KeyT, ValT};
use crate::watch::*;
use crate::{counting, fail, soft};
use std::collections::BTreeMap;
use std::ops::Bound::{self, *};

pub type Model = BTreeMap<u32, u64>;

pub struct H<K: KeyT, V: ValT> {
    pub m: Box<dyn DynMap<K, V>>,
    pub model: Model,
    pub lin: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Op {
    Insert,
    Remove,
    Get,
    GetMut,
    Ends,
    Pop,
    Entry,
    Clone,
    CloneFrom,
    DropOne,
    Ro,
    RwIt,
    Own,
    Range,
    RangeMut,
    Append,
    SplitOff,
    Retain,
    Extend,
    Collect,
    Binary,
    Join,
    ForEach,
    Cmp,
    Clear,
    NOPS,
}
const OPS: [Op; Op::NOPS as usize] = [
    Op::Insert, Op::Remove, Op::Get, Op::GetMut, Op::Ends, Op::Pop, Op::Entry, Op::Clone, Op::CloneFrom, Op::DropOne,
    Op::Ro, Op::RwIt, Op::Own, Op::Range, Op::RangeMut, Op::Append, Op::SplitOff, Op::Retain, Op::Extend, Op::Collect,
    Op::Binary, Op::Join, Op::ForEach, Op::Cmp, Op::Clear,
];

fn weights(prop: &str) -> [u32; Op::NOPS as usize] {
    //            ins rem get gmt end pop ent cln clf drp ro  rw  own rng rmu app spl ret ext col bin joi fe  cmp clr
    let base = [12, 12, 8, 6, 4, 6, 6, 6, 1, 3, 3, 3, 1, 2, 2, 1, 2, 1, 2, 1, 2, 1, 1, 2, 1];
    let mut w: [u32; Op::NOPS as usize] = base;
    let mut up = |ops: &[Op], f: u32| {
        for o in ops {
            w[*o as usize] *= f
        }
    };
    use Op::*;
    match prop {
        "C01" => up(&[Insert, Remove, Get, Ends, Pop, Entry, GetMut], 3),
        "C02" => up(&[Clone, CloneFrom, DropOne, Remove, Pop, RwIt, Own, RangeMut, Entry], 3),
        "C03" => up(&[Insert, Remove, Pop, SplitOff, Join, Binary, Append, Retain], 3),
        "C05" => up(&[Own, RwIt, SplitOff, Retain, Append, Clear, Collect, Binary], 4),
        "C06" => up(&[Ro, RwIt, Own], 10),
        "C07" => up(&[Range, RangeMut], 15),
        "C08" => up(&[Append, SplitOff, Retain, Extend, Collect, Binary, Join, ForEach], 8),
        "C17" => up(&[Cmp], 20),
        _ => (),
    }
    w
}

pub struct Eng<K: KeyT, V: ValT> {
    prop: &'static str,
    rng: Rng,
    pool: Vec<H<K, V>>,
    proto: Box<dyn DynMap<K, V>>,
    caps: Caps,
    bnd: Bounds,
    deep: bool,
    stats: Stats,
    states: Vec<u64>,
    next_lin: u32,
    uni: u32,
    cap: usize,
    core: u64,
    vseq: u64,
    name: String,
    held: Vec<Held<(Option<K>, Option<V>), (u32, u64)>>,
}

fn diff(m: &Model, k: u32) -> String {
    format!("model has {:?}", m.get(&k))
}

/// compares two (key, value) sequences
fn first_diff(got: &[(u32, u64)], want: &Model) -> Option<String> {
    if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1) {
        return None;
    }
    let w: Vec<(u32, u64)> = want.iter().map(|(k, v)| (*k, *v)).collect();
    let i = got.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
    Some(format!("{} entries, expected {}; at position {i}: {:?}, expected {:?}", got.len(), w.len(), got.get(i), w.get(i)))
}

impl<K: KeyT, V: ValT> Eng<K, V> {
    fn new(prop: &'static str, proto: Box<dyn DynMap<K, V>>, rng: Rng, deep: bool) -> Self {
        let caps = proto.caps();
        let name = proto.name();
        let bnd = Bounds { n: caps.n };
        Eng {
            prop,
            rng,
            pool: vec![],
            proto,
            caps,
            bnd,
            deep,
            stats: Stats::default(),
            states: vec![],
            next_lin: 0,
            uni: 100,
            cap: 40,
            core: 0,
            vseq: 1,
            name,
            held: vec![],
        }
    }
    fn lin(&mut self) -> Vec<u32> {
        self.next_lin += 1;
        vec![self.next_lin]
    }
    fn val(&mut self) -> u64 {
        self.vseq += 1;
        self.vseq
    }
    fn shared(&self, i: usize) -> bool {
        (0..self.pool.len()).any(|j| j != i && self.pool[j].lin.iter().any(|x| self.pool[i].lin.contains(x))) || self.held.iter().any(|h| h.lin.iter().any(|x| self.pool[i].lin.contains(x)))
    }
    fn any_shared(&self) -> bool {
        !self.held.is_empty() || (0..self.pool.len()).any(|i| self.shared(i))
    }
    /// steps or drops a consuming iterator that was kept
    fn held_op(&mut self) -> R {
        label("C06");
        let j = self.rng.below(self.held.len());
        if self.rng.chance(1, 8) {
            doing(|| format!("held iterator {j}: dropped"));
            self.held.swap_remove(j);
            return Ok(());
        }
        doing(|| format!("held iterator {j}: some steps"));
        let done = self.held[j].step("C06", true, &mut self.rng, |(k, v), (wk, wv)| {
            if k.as_ref().map_or(false, |k| k.key() != *wk) || v.as_ref().map_or(false, |v| v.get() != *wv) {
                return Err(format!("{:?} -> {:?}, expected {wk} -> {wv}", k.as_ref().map(|k| k.key()), v.as_ref().map(|v| v.get())));
            }
            Ok(())
        })?;
        self.stats.add("steps_of_held_iterators", 1);
        if done {
            self.held.swap_remove(j);
        }
        Ok(())
    }
    fn pick_key(&mut self, i: usize) -> u32 {
        let m = &self.pool[i].model;
        if !m.is_empty() && self.rng.chance(75, 100) {
            let r = self.rng.below(self.uni as usize) as u32;
            let k = *m.range(r..).next().or_else(|| m.iter().next()).unwrap().0;
            match self.rng.below(8) {
                0 => k + 1,
                1 => k.saturating_sub(1),
                2 => *m.iter().next_back().unwrap().0,
                3 => *m.iter().next().unwrap().0,
                _ => k,
            }
        } else {
            self.rng.below(self.uni as usize) as u32
        }
    }
    fn gen_kvs(&mut self, n: usize) -> Vec<(u32, u64)> {
        let kind = self.rng.below(5);
        let mut ks: Vec<u32> = match kind {
            // dense run
            0 => {
                let s = self.rng.below(self.uni as usize) as u32;
                (0..n as u32).map(|j| s + j).collect()
            }
            _ => (0..n).map(|_| self.rng.below(self.uni as usize) as u32).collect(),
        };
        match kind {
            1 => ks.sort(),
            2 => {
                ks.sort();
                ks.reverse()
            }
            _ => (),
        }
        ks.into_iter().map(|k| (k, self.val())).collect()
    }
    fn mk(&mut self, kvs: &[(u32, u64)]) -> Vec<(K, V)> {
        kvs.iter().map(|(k, v)| (K::mk(*k, self.rng.below(4096) as u32), V::mk(*v))).collect()
    }
    fn push(&mut self, h: H<K, V>) {
        if self.pool.len() >= 6 {
            let j = self.rng.below(self.pool.len());
            self.pool[j] = h;
        } else {
            self.pool.push(h);
        }
    }
    fn clone_handle(&mut self, i: usize) -> R<H<K, V>> {
        if self.deep {
            let kvs: Vec<(u32, u64)> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
            let kv = kvs.iter().map(|(k, v)| (K::mk(*k, 0), V::mk(*v))).collect();
            let m = self.proto.collect_new(kv);
            let lin = self.lin();
            return Ok(H { m, model: self.pool[i].model.clone(), lin });
        }
        label("C02");
        let (k0, v0, a0, b0) = (tok::kclones(), tok::vclones(), counting::allocs(), counting::bytes());
        let m = self.pool[i].m.clone_box();
        let (a1, b1) = (counting::allocs(), counting::bytes());
        if tok::kclones() != k0 || tok::vclones() != v0 {
            soft!("C04", "clone() of a {} with {} entries copied {} keys and {} values", self.name, self.pool[i].model.len(), tok::kclones() - k0, tok::vclones() - v0);
        }
        if a1 - a0 > 5 || b1 - b0 > 300 {
            soft!("C04", "clone() of a {} with {} entries made {} allocations ({} bytes)", self.name, self.pool[i].model.len(), a1 - a0, b1 - b0);
        }
        self.stats.add("clones", 1);
        Ok(H { m, model: self.pool[i].model.clone(), lin: self.pool[i].lin.clone() })
    }

    // ------------------------------------------------------------ checks
    fn contents(&self, i: usize) -> Vec<(u32, u64)> {
        let mut it = self.pool[i].m.ro(Ro::Iter);
        let mut v = Vec::with_capacity(self.pool[i].model.len());
        let lim = self.pool[i].model.len() + 3;
        while let Some((k, x)) = it.next() {
            v.push((k.unwrap(), x.unwrap()));
            if v.len() > lim {
                break;
            }
        }
        v
    }
    fn verify(&mut self, i: usize, lab: &'static str, what: &str) -> R {
        label(lab);
        let h = &self.pool[i];
        let n = h.model.len();
        if h.m.len() != n || h.m.is_empty() != (n == 0) {
            fail!(lab, "{}: {what}: len() = {}, is_empty() = {}, expected {n} entries", self.name, h.m.len(), h.m.is_empty());
        }
        let got = self.contents(i);
        self.stats.add("entries_compared", n as u64);
        if let Some(d) = first_diff(&got, &h.model) {
            // do lookups agree with the model? then it is the iterator that is wrong
            let ok = h.model.iter().all(|(k, v)| h.m.get(*k, false) == Some(*v))
                && got.iter().all(|(k, _)| h.m.get(*k, false) == h.model.get(k).copied());
            fail!(if ok { "C06" } else { lab }, "{}: {what}: contents: {d}", self.name);
        }
        if lab != "C02" && self.rng.chance(1, 3) {
            for _ in 0..3 {
                let k = self.pick_key(i);
                let h = &self.pool[i];
                if h.m.get(k, false) != h.model.get(&k).copied() {
                    fail!(lab, "{}: {what}: get({k}) = {:?}, {}", self.name, h.m.get(k, false), diff(&h.model, k));
                }
            }
        }
        let h = &self.pool[i];
        if self.caps.full {
            label("C03");
            if let Err(e) = h.m.check() {
                soft!("C03", "{}: {what}: invariant check of a map of {n} entries: {e}", self.name);
            }
        }
        label(lab);
        Ok(())
    }
    fn registry(&mut self, what: &str) -> R {
        let e = tok::take_errs();
        if let Some(e) = e.first() {
            soft!("C05", "{}: {what}: {e}", self.name);
        }
        Ok(())
    }
    fn live(&mut self, what: &str) -> R {
        self.registry(what)?;
        let (k, v) = tok::live();
        let tot: usize = self.pool.iter().map(|h| h.model.len()).sum::<usize>() + self.held.iter().map(|h| h.len()).sum::<usize>();
        let max = self.pool.iter().map(|h| h.model.len()).max().unwrap_or(0);
        if !self.any_shared() {
            if k != tot || v != tot {
                soft!("C05", "{}: {what}: {k} live keys and {v} live values in unshared maps of {tot} entries in all", self.name);
            }
            self.stats.add("exact_live_counts", 1);
        } else if k > tot || v > tot || k < max || v < max {
            soft!("C05", "{}: {what}: {k} live keys and {v} live values, the maps hold {tot} entries in all, the largest {max}", self.name);
        }
        Ok(())
    }
    fn count_check(&self, what: &str, c0: (u64, u64, u64), copies: u64, kextra: u64, cmps: Option<u64>, n: usize) -> R {
        let (k, v, c) = (tok::kclones() - c0.0, tok::vclones() - c0.1, tok::cmps() - c0.2);
        if k > copies + kextra || v > copies {
            soft!("C04", "{}: {what} on a map of {n} entries copied {k} keys and {v} values (at most {copies} allowed)", self.name);
        }
        if let Some(m) = cmps {
            if c > m {
                soft!("C03", "{}: {what} on a map of {n} entries made {c} comparisons (at most {m} allowed)", self.name);
            }
        }
        Ok(())
    }
    fn counts() -> (u64, u64, u64) {
        (tok::kclones(), tok::vclones(), tok::cmps())
    }
    fn copies(&self, i: usize) -> u64 {
        if self.shared(i) {
            self.bnd.copies(self.pool[i].model.len() + 1)
        } else {
            0
        }
    }
    fn copies_path(&self, i: usize) -> u64 {
        if self.shared(i) {
            self.bnd.copies_path(self.pool[i].model.len() + 1)
        } else {
            0
        }
    }

    // ------------------------------------------------------------ operations
    fn op(&mut self, op: Op) -> R {
        let i = self.rng.below(self.pool.len());
        let n = self.pool[i].model.len();
        let sh = self.shared(i);
        let by_key = self.rng.chance(1, 3);
        self.stats.add(if sh { "operations_on_shared" } else { "operations_on_unshared" }, 1);
        self.states.push(mix(op as u64 * 1000 + (n.min(64) as u64) * 4 + sh as u64 * 2 + self.caps.n as u64 * 7_000_003 + by_key as u64));
        let c0 = Self::counts();
        let copies = self.copies(i);
        let path = self.copies_path(i);
        let cb = Some(self.bnd.cmps(n + 1));
        let ro_cb = cb;
        let lab_point: &'static str = "C01";
        let mut lab: &'static str = lab_point;
        let mut touched = vec![i];
        label(lab);
        match op {
            Op::Insert => {
                let k = self.pick_key(i);
                let v = self.val();
                doing(|| format!("[{i}] insert({k}, {v})"));
                let want = self.pool[i].model.insert(k, v);
                let t = self.rng.below(4096) as u32;
                let got = self.pool[i].m.insert(K::mk(k, t), V::mk(v)).map(|x| x.get());
                if got != want {
                    fail!(lab, "{}: insert({k}) returned {got:?}, expected {want:?}", self.name);
                }
                self.count_check("insert", c0, path, 0, cb, n)?;
            }
            Op::Remove => {
                let k = self.pick_key(i);
                if self.caps.avl && self.rng.chance(1, 3) {
                    doing(|| format!("[{i}] remove_entry({k})"));
                    let want = self.pool[i].model.remove_entry(&k);
                    let got = self.pool[i].m.remove_entry(k).map(|(k, v)| (k.key(), v.get()));
                    if got != want {
                        fail!(lab, "{}: remove_entry({k}) returned {got:?}, expected {want:?}", self.name);
                    }
                } else {
                    doing(|| format!("[{i}] remove({k})"));
                    let want = self.pool[i].model.remove(&k);
                    let got = self.pool[i].m.remove(k, by_key).map(|x| x.get());
                    if got != want {
                        fail!(lab, "{}: remove({k}) returned {got:?}, expected {want:?}", self.name);
                    }
                }
                self.count_check("remove", c0, copies, 0, cb, n)?;
            }
            Op::Get => {
                for _ in 0..3 {
                    let k = self.pick_key(i);
                    let c0 = Self::counts();
                    let want = self.pool[i].model.get(&k).copied();
                    let h = &self.pool[i];
                    let which = if self.caps.full { self.rng.below(4) } else { 0 };
                    doing(|| format!("[{i}] get({k}) #{which}"));
                    let (got, w): (Option<u64>, &str) = match which {
                        0 => (h.m.get(k, by_key), "get"),
                        1 => {
                            let r = h.m.get_kv(k, by_key);
                            if let Some((k2, _)) = r {
                                if k2 != k {
                                    fail!(lab, "{}: get_key_value({k}) returned key {k2}", self.name);
                                }
                            }
                            (r.map(|x| x.1), "get_key_value")
                        }
                        2 => {
                            let r = h.m.contains(k, by_key);
                            if r != want.is_some() {
                                fail!(lab, "{}: contains_key({k}) = {r}, {}", self.name, diff(&h.model, k));
                            }
                            (want, "contains_key")
                        }
                        _ if self.caps.avl => {
                            if want.is_some() {
                                (Some(h.m.index(k)), "index")
                            } else {
                                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.m.index(k)));
                                if let Ok(v) = r {
                                    fail!(lab, "{}: indexing the absent key {k} returned {v}", self.name);
                                }
                                (None, "index")
                            }
                        }
                        _ => (h.m.get(k, by_key), "get"),
                    };
                    if got != want {
                        fail!(lab, "{}: {w}({k}) returned {got:?}, expected {want:?}", self.name);
                    }
                    self.count_check(w, c0, 0, 0, ro_cb, n)?;
                }
            }
            Op::GetMut => {
                let k = self.pick_key(i);
                let v = self.val();
                doing(|| format!("[{i}] get_mut({k}) = {v}"));
                let want = self.pool[i].model.get_mut(&k);
                let had = want.as_ref().map(|x| **x);
                if let Some(w) = want {
                    *w = v;
                }
                let r = self.pool[i].m.get_mut(k, by_key);
                let got = r.map(|x| {
                    let o = x.get();
                    x.set(v);
                    o
                });
                if got != had {
                    fail!(lab, "{}: get_mut({k}) gave {got:?}, expected {had:?}", self.name);
                }
                self.count_check("get_mut", c0, path, 0, cb, n)?;
            }
            Op::Ends => {
                if !self.caps.full {
                    return Ok(());
                }
                let last = by_key;
                doing(|| format!("[{i}] first/last"));
                let m = &self.pool[i].model;
                let want = if last { m.iter().next_back() } else { m.iter().next() }.map(|(k, v)| (*k, *v));
                let got = self.pool[i].m.first_last(last);
                if got != want {
                    fail!(lab, "{}: {}_key_value() returned {got:?}, expected {want:?}", self.name, if last { "last" } else { "first" });
                }
                self.count_check("first/last", c0, 0, 0, cb, n)?;
            }
            Op::Pop => {
                if !self.caps.full {
                    return self.op(Op::Remove);
                }
                let last = by_key;
                for _ in 0..self.rng.range(1, 3) {
                    doing(|| format!("[{i}] pop_{}", if last { "last" } else { "first" }));
                    let c0 = Self::counts();
                    let copies = self.copies(i);
                    let m = &mut self.pool[i].model;
                    let want = if last { m.pop_last() } else { m.pop_first() };
                    let got = self.pool[i].m.pop(last).map(|(k, v)| (k.key(), v.get()));
                    if got != want {
                        fail!(lab, "{}: pop_{}() returned {got:?}, expected {want:?}", self.name, if last { "last" } else { "first" });
                    }
                    self.count_check("pop", c0, copies, 0, cb, n)?;
                }
            }
            Op::Entry => {
                if !self.caps.full {
                    return self.op(Op::GetMut);
                }
                let at = *self.rng.pick(&[None, None, None, None, Some(false), Some(true)]);
                let modify = self.rng.chance(1, 2);
                let e = *self.rng.pick(&[
                    EntryOp::OrInsert,
                    EntryOp::OrInsertWith,
                    EntryOp::OrInsertWithKey,
                    EntryOp::OrDefault,
                    EntryOp::ModifyOnly,
                    EntryOp::KeyOnly,
                ]);
                let k = self.pick_key(i);
                let v = self.val();
                doing(|| format!("[{i}] entry({k}, {at:?}) modify={modify} {e:?} {v}"));
                let m = &mut self.pool[i].model;
                let key = match at {
                    None => Some(k),
                    Some(false) => m.keys().next().copied(),
                    Some(true) => m.keys().next_back().copied(),
                };
                let want = key.map(|k| {
                    let mut o = EntryOut { key: k, modify_calls: vec![], default_calls: vec![], value_seen: None };
                    if modify {
                        if let Some(x) = m.get_mut(&k) {
                            o.modify_calls.push(*x);
                            *x = x.wrapping_mul(3).wrapping_add(1);
                        }
                    }
                    let present = m.contains_key(&k);
                    let dflt = match e {
                        EntryOp::OrInsert => Some(v),
                        EntryOp::OrInsertWith | EntryOp::OrInsertWithKey => {
                            if !present {
                                o.default_calls.push((e == EntryOp::OrInsertWithKey).then_some(k));
                            }
                            Some(v)
                        }
                        EntryOp::OrDefault => Some(tok::DEFAULT_VAL),
                        _ => None,
                    };
                    if let Some(d) = dflt {
                        let x = m.entry(k).or_insert(d);
                        o.value_seen = Some(*x);
                        *x ^= 0x1_0000;
                    }
                    o
                });
                let got = self.pool[i].m.entry_op(k, at, modify, e, v);
                if got != want {
                    fail!(lab, "{}: entry({k}, {at:?}) modify={modify} {e:?}: {got:?}, expected {want:?}", self.name);
                }
                self.count_check("entry", c0, path * 2, 3, cb.map(|x| 5 * x), n)?;
            }
            Op::Clone => {
                doing(|| format!("[{i}] clone"));
                let h = self.clone_handle(i)?;
                if self.caps.full && (!h.m.eq_dyn(&*self.pool[i].m) || h.m.len() != n) {
                    fail!("C02", "{}: a fresh clone of {n} entries differs from its original", self.name);
                }
                self.push(h);
                let k = self.pool.len() - 1;
                if !touched.contains(&k) {
                    touched = vec![i.min(k), k];
                }
                lab = "C02";
            }
            Op::CloneFrom => {
                let j = self.rng.below(self.pool.len());
                if i == j {
                    return Ok(());
                }
                doing(|| format!("[{i}] clone_from([{j}])"));
                label("C02");
                if self.deep {
                    self.pool[i] = self.clone_handle(j)?;
                } else {
                    let (a, b) = two(&mut self.pool, i, j);
                    a.m.clone_from_dyn(&*b.m);
                    a.model = b.model.clone();
                    a.lin = b.lin.clone();
                }
                lab = "C02";
            }
            Op::DropOne => {
                if self.pool.len() < 2 {
                    return Ok(());
                }
                doing(|| format!("[{i}] drop"));
                label("C05");
                self.pool.swap_remove(i);
                touched.clear();
            }
            Op::Clear => {
                lab = "C08";
                label(lab);
                match self.rng.below(4) {
                    0 => {
                        doing(|| format!("[{i}] clear"));
                        self.pool[i].m.clear();
                        self.pool[i].model.clear();
                        self.pool[i].lin = self.lin();
                    }
                    1 => {
                        doing(|| format!("[{i}] take"));
                        let m = self.pool[i].m.take_box();
                        let h = H { m, model: std::mem::take(&mut self.pool[i].model), lin: self.pool[i].lin.clone() };
                        self.verify(i, lab, "after being taken")?;
                        self.pool[i] = h;
                    }
                    2 => {
                        doing(|| format!("[{i}] into Vec"));
                        let h = self.clone_handle(i)?;
                        label("C06");
                        let v = h.m.into_vec();
                        let got: Vec<(u32, u64)> = v.iter().map(|(k, v)| (k.key(), v.get())).collect();
                        if let Some(d) = first_diff(&got, &h.model) {
                            fail!("C06", "{}: conversion to a vector: {d}", self.name);
                        }
                    }
                    _ => return Ok(()),
                }
            }
            Op::Ro => {
                lab = "C06";
                label(lab);
                let kind = if self.caps.full { *self.rng.pick(&[Ro::Iter, Ro::RefInto, Ro::Keys, Ro::Values]) } else { Ro::Iter };
                let d = Drive::rand(&mut self.rng, true);
                doing(|| format!("[{i}] {kind:?} abandon={} dir={}", d.abandon, d.dir));
                let want: Vec<(u32, u64)> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
                let what = format!("{}: {kind:?}", self.name);
                let mut r = self.rng.clone();
                let vis = drive(lab, &what, self.pool[i].m.ro(kind), n, &d, &mut r, |(k, v), ix| {
                    let (wk, wv) = want[ix];
                    if k.map_or(false, |k| k != wk) || v.map_or(false, |v| v != wv) {
                        return Err(format!("{k:?} -> {v:?}, expected {wk} -> {wv}"));
                    }
                    Ok(())
                })?;
                self.rng.u64();
                self.stats.add("iterator_steps", vis.steps);
                self.count_check("read-only iteration", c0, 0, 0, None, n)?;
                self.core += vis.steps;
            }
            Op::RwIt => {
                lab = "C06";
                label(lab);
                let kind = if self.caps.full { *self.rng.pick(&[Rw::IterMut, Rw::MutInto, Rw::ValuesMut]) } else { Rw::IterMut };
                let d = Drive::rand(&mut self.rng, true);
                doing(|| format!("[{i}] {kind:?} abandon={} dir={}", d.abandon, d.dir));
                let want: Vec<(u32, u64)> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
                let what = format!("{}: {kind:?}", self.name);
                let mut r = self.rng.clone();
                let base = self.val() << 20;
                let mut writes: Vec<(u32, u64)> = vec![];
                let late = r.chance(1, 4);
                {
                    let mut kept: Vec<(u64, &mut V)> = vec![];
                    let vis = {
                        let wr = &mut writes;
                        let kp = &mut kept;
                        drive(lab, &what, self.pool[i].m.rw(kind), n, &d, &mut r, |(k, v), ix| {
                            let (wk, wv) = want[ix];
                            if k.map_or(false, |k| k != wk) || v.get() != wv {
                                return Err(format!("{k:?} -> {}, expected {wk} -> {wv}", v.get()));
                            }
                            let nv = base + ix as u64;
                            wr.push((wk, nv));
                            if late {
                                kp.push((nv, v));
                            } else {
                                v.set(nv);
                            }
                            Ok(())
                        })?
                    };
                    // references handed out stay usable after the iterator is gone
                    for (nv, v) in kept {
                        v.set(nv);
                    }
                    self.stats.add("iterator_steps", vis.steps);
                    let seen = vis.front + n - vis.back.max(vis.front);
                    let vis_all = if vis.drained { n } else { seen };
                    let allowed = if sh { self.bnd.iter_copies(n, vis_all) } else { 0 };
                    self.core += vis.steps;
                    self.count_check("mutable iteration", c0, allowed, 0, None, n)?;
                }
                self.rng.u64();
                for (k, v) in writes {
                    self.pool[i].model.insert(k, v);
                }
            }
            Op::Own => {
                lab = "C06";
                label(lab);
                let h = if self.pool.len() > 1 && self.rng.chance(1, 2) {
                    touched.clear();
                    self.pool.swap_remove(i)
                } else {
                    self.clone_handle(i)?
                };
                label(lab);
                let kind = if self.caps.full { *self.rng.pick(&[Own::IntoIter, Own::IntoIter, Own::IntoKeys, Own::IntoValues]) } else { Own::IntoIter };
                let d = Drive::rand(&mut self.rng, true);
                doing(|| format!("[{i}] {kind:?} abandon={} dir={}", d.abandon, d.dir));
                let want: Vec<(u32, u64)> = h.model.iter().map(|(k, v)| (*k, *v)).collect();
                let what = format!("{}: {kind:?}", self.name);
                if self.held.len() < 2 && n > 0 && self.rng.chance(1, 3) {
                    self.held.push(Held::new(h.m.own(kind), want, what, h.lin));
                    return self.held_op();
                }
                let mut r = self.rng.clone();
                let mut kept: Vec<(Option<K>, Option<V>)> = vec![];
                let keep = r.chance(1, 2);
                let vis = drive(lab, &what, h.m.own(kind), n, &d, &mut r, |(k, v), ix| {
                    let (wk, wv) = want[ix];
                    if k.as_ref().map_or(false, |k| k.key() != wk) || v.as_ref().map_or(false, |v| v.get() != wv) {
                        return Err(format!("{:?} -> {:?}, expected {wk} -> {wv}", k.as_ref().map(|k| k.key()), v.as_ref().map(|v| v.get())));
                    }
                    if keep {
                        kept.push((k, v));
                    }
                    Ok(())
                })?;
                self.rng.u64();
                for (k, v) in &kept {
                    k.as_ref().map(|k| k.key());
                    v.as_ref().map(|v| v.get());
                }
                drop(kept);
                self.stats.add("iterator_steps", vis.steps);
                self.core += vis.steps;
            }
            Op::Range | Op::RangeMut => {
                if !self.caps.full {
                    return Ok(());
                }
                lab = "C07";
                label(lab);
                let b = self.bounds(i);
                let bad = inverted(&b);
                let d = Drive { exact: false, ..Drive::rand(&mut self.rng, false) };
                let want: Vec<(u32, u64)> = if bad {
                    vec![]
                } else {
                    self.pool[i].model.range::<u32, Bd>(b).map(|(k, v)| (*k, *v)).collect()
                };
                let m = want.len();
                let mutable = op == Op::RangeMut;
                doing(|| format!("[{i}] range{} {b:?} of {m}/{n}", if mutable { "_mut" } else { "" }));
                let what = format!("{}: {}({b:?}) of a map of {n} entries", self.name, if mutable { "range_mut" } else { "range" });
                let mut r = self.rng.clone();
                self.rng.u64();
                self.core += 1;
                let base = self.val() << 20;
                let mut writes: Vec<(u32, u64)> = vec![];
                let mut vis = None;
                {
                    let h = &mut self.pool[i];
                    let mut body = || -> R {
                        if mutable {
                            let wr = &mut writes;
                            vis = Some(drive(lab, &what, h.m.range_mut(b, by_key), m, &d, &mut r, |(k, v), ix| {
                                let (wk, wv) = want[ix];
                                if k != Some(wk) || v.get() != wv {
                                    return Err(format!("{k:?} -> {}, expected {wk} -> {wv}", v.get()));
                                }
                                v.set(base + ix as u64);
                                wr.push((wk, base + ix as u64));
                                Ok(())
                            })?);
                        } else {
                            vis = Some(drive(lab, &what, h.m.range(b, by_key), m, &d, &mut r, |x, ix| {
                                if x != (Some(want[ix].0), Some(want[ix].1)) {
                                    return Err(format!("{x:?}, expected {:?}", want[ix]));
                                }
                                Ok(())
                            })?);
                        }
                        Ok(())
                    };
                    if bad {
                        // may panic
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)) {
                            Ok(r) => r?,
                            Err(_) => self.stats.add("inverted_bounds_panics", 1),
                        }
                        self.stats.add("inverted_bounds", 1);
                    } else {
                        body()?;
                    }
                }
                if let Some(v) = &vis {
                    self.stats.add("iterator_steps", v.steps);
                    let seen = if v.drained { m } else { v.front + m - v.back.max(v.front) };
                    let allowed = if mutable && sh { self.bnd.iter_copies(n, seen) } else { 0 };
                    self.count_check(if mutable { "range_mut" } else { "range" }, c0, allowed, 0, None, n)?;
                }
                for (k, v) in writes {
                    self.pool[i].model.insert(k, v);
                }
            }
            Op::Append => {
                if !self.caps.full {
                    return Ok(());
                }
                lab = "C08";
                label(lab);
                let mut h2;
                let j = self.rng.below(self.pool.len());
                if i != j && self.rng.chance(1, 2) {
                    let nl = self.lin();
                    doing(|| format!("[{i}] append([{j}])"));
                    let (a, b) = two(&mut self.pool, i, j);
                    a.m.append(&mut *b.m);
                    let mut t = std::mem::take(&mut b.model);
                    a.model.append(&mut t);
                    a.lin.extend(std::mem::replace(&mut b.lin, nl));
                    touched.push(j);
                } else {
                    h2 = self.clone_handle(j)?;
                    label(lab);
                    let trimmed = self.rng.chance(1, 2);
                    if trimmed {
                        // operand of a different size
                        let k = self.pick_key(j);
                        drop(h2.m.split_off(k, false));
                        h2.model.split_off(&k);
                    }
                    doing(|| format!("[{i}] append(clone of [{j}]{})", if trimmed { " cut" } else { "" }));
                    let a = &mut self.pool[i];
                    a.m.append(&mut *h2.m);
                    a.model.append(&mut h2.model);
                    a.lin.extend(h2.lin);
                    if h2.m.len() != 0 || h2.m.ro(Ro::Iter).next().is_some() {
                        fail!(lab, "{}: append left {} entries in its operand", self.name, h2.m.len());
                    }
                }
                self.core += 1;
            }
            Op::SplitOff => {
                if !self.caps.full {
                    return Ok(());
                }
                lab = "C08";
                label(lab);
                let k = self.pick_key(i);
                doing(|| format!("[{i}] split_off({k})"));
                let m = self.pool[i].m.split_off(k, by_key);
                let model = self.pool[i].model.split_off(&k);
                let lin = self.pool[i].lin.clone();
                self.verify(i, lab, "lower part after split_off")?;
                let h = H { m, model, lin };
                if self.rng.chance(1, 2) && self.pool.len() < 6 {
                    self.pool.push(h);
                    touched.push(self.pool.len() - 1);
                } else {
                    // keep the larger part
                    let lower = std::mem::replace(&mut self.pool[i], h);
                    self.verify(i, lab, "upper part after split_off")?;
                    if lower.model.len() > self.pool[i].model.len() {
                        self.pool[i] = lower;
                    }
                }
                self.core += 1;
            }
            Op::Retain => {
                if !self.caps.full {
                    return Ok(());
                }
                lab = "C08";
                label(lab);
                let md = self.rng.range(2, 12) as u64;
                let salt = self.rng.u64();
                let keep_few = self.rng.chance(1, 5);
                let decide = |k: u32| (mix(k as u64 ^ salt) % md == 0) == keep_few;
                doing(|| format!("[{i}] retain(md={md}, keep_few={keep_few}) of {n}"));
                let want_calls: Vec<(u32, u64)> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
                let mut calls = vec![];
                self.pool[i].m.retain(&mut |k, v| {
                    calls.push((k.key(), v.get()));
                    v.set(v.get() ^ 0x55);
                    decide(k.key())
                });
                if calls != want_calls {
                    let p = calls.iter().zip(&want_calls).position(|(a, b)| a != b).unwrap_or(calls.len().min(want_calls.len()));
                    fail!(lab, "{}: retain called its closure {} times on {n} entries; call {p} was {:?}, expected {:?}", self.name, calls.len(), calls.get(p), want_calls.get(p));
                }
                self.pool[i].model.retain(|k, v| {
                    *v ^= 0x55;
                    decide(*k)
                });
                self.core += 1;
            }
            Op::Extend => {
                lab = "C08";
                label(lab);
                let c = if n >= self.cap { self.rng.below(4) } else { self.rng.below(self.cap / 2 + 3) };
                let kvs = self.gen_kvs(c);
                let kv = self.mk(&kvs);
                let by_ref = self.caps.avl && self.rng.chance(1, 2);
                doing(|| format!("[{i}] extend{}({kvs:?})", if by_ref { "_ref" } else { "" }));
                if by_ref {
                    self.pool[i].m.extend_ref(&kv);
                    drop(kv);
                } else {
                    let how = self.rng.below(10);
                    self.pool[i].m.extend(&mut Hinted::new(kv.into_iter(), how));
                }
                self.pool[i].model.extend(kvs);
                self.core += 1;
            }
            Op::Collect => {
                lab = "C08";
                label(lab);
                let c = self.rng.below(self.cap + 1);
                let arr = self.rng.chance(1, 4);
                let kvs = self.gen_kvs(if arr { 4 } else { c });
                let kv = self.mk(&kvs);
                doing(|| format!("collect({kvs:?})"));
                let m = if arr {
                    let Ok(a): Result<[(K, V); 4], _> = kv.try_into() else { unreachable!() };
                    self.proto.from_arr(a)
                } else {
                    self.proto.collect_new(kv)
                };
                let lin = self.lin();
                let h = H { m, model: kvs.into_iter().collect(), lin };
                if self.pool.len() < 5 {
                    self.pool.push(h);
                    touched = vec![self.pool.len() - 1];
                } else {
                    self.pool[i] = h;
                }
                self.core += 1;
            }
            Op::Binary => {
                if !self.caps.avl {
                    return Ok(());
                }
                lab = "C08";
                let bin = *self.rng.pick(&[Bin::Union, Bin::Inter, Bin::Diff, Bin::SymDiff]);
                let j = self.rng.below(self.pool.len());
                doing(|| format!("{bin:?}([{i}], [{j}])"));
                let mut a = self.clone_handle(i)?;
                let mut b = self.clone_handle(j)?;
                for h in [&mut a, &mut b] {
                    // operands of other sizes and ranges
                    if self.rng.chance(1, 3) && !h.model.is_empty() {
                        label("C08");
                        let k = self.rng.below(self.uni as usize) as u32;
                        let hi = h.m.split_off(k, false);
                        let himodel = h.model.split_off(&k);
                        if self.rng.chance(1, 2) {
                            h.m = hi;
                            h.model = himodel;
                        }
                    }
                }
                if self.rng.chance(1, 4) {
                    // one operand unshared
                    self.pool.remove(i);
                    if self.pool.is_empty() {
                        let lin = self.lin();
                        self.pool.push(H { m: self.proto.new_empty(), model: Model::new(), lin });
                    }
                }
                label(lab);
                let (x, y) = (&a.model, &b.model);
                let want: Model = match bin {
                    Bin::Union => x.iter().chain(y).map(|(k, v)| (*k, *v)).collect(),
                    Bin::Inter => x.iter().filter(|(k, _)| y.contains_key(k)).map(|(k, v)| (*k, *v)).collect(),
                    Bin::Diff => x.iter().filter(|(k, _)| !y.contains_key(k)).map(|(k, v)| (*k, *v)).collect(),
                    Bin::SymDiff => x
                        .iter()
                        .filter(|(k, _)| !y.contains_key(k))
                        .chain(y.iter().filter(|(k, _)| !x.contains_key(k)))
                        .map(|(k, v)| (*k, *v))
                        .collect(),
                };
                let m = a.m.binary(bin, b.m);
                let mut lin = a.lin;
                lin.extend(b.lin);
                self.pool.push(H { m, model: want, lin });
                let k = self.pool.len() - 1;
                self.verify(k, lab, "map set operation")?;
                if self.pool.len() > 6 {
                    let j = self.rng.below(self.pool.len());
                    self.pool.swap_remove(j);
                }
                touched.clear();
                self.core += 1;
            }
            Op::Join => {
                if !self.caps.avl || n == 0 {
                    return Ok(());
                }
                lab = "C08";
                let p = self.pick_key(i);
                let j = self.rng.below(self.pool.len());
                let mut lhs = self.clone_handle(i)?;
                let mut rhs = self.clone_handle(j)?;
                label(lab);
                let cut = self.rng.below(3);
                doing(|| format!("join([{i}] below {p}, {p}, [{j}] above {p}) cut={cut}"));
                drop(lhs.m.split_off(p, false));
                lhs.model.split_off(&p);
                rhs.m = rhs.m.split_off(p + 1, false);
                rhs.model = rhs.model.split_off(&(p + 1));
                // make the sides of very different heights
                let h = if cut == 1 { Some(&mut lhs) } else if cut == 2 { Some(&mut rhs) } else { None };
                if let Some(h) = h {
                    let keep = self.rng.below(6);
                    while h.model.len() > keep {
                        let ks: Vec<u32> = h.model.keys().copied().collect();
                        let k = ks[ks.len() / 2];
                        drop(h.m.split_off(k, false));
                        h.model.split_off(&k);
                        if ks.len() == 1 {
                            break;
                        }
                    }
                }
                let v = self.val();
                let mut model = lhs.model;
                model.insert(p, v);
                model.extend(rhs.model);
                let m = lhs.m.join(K::mk(p, 7), V::mk(v), rhs.m);
                let mut lin = lhs.lin;
                lin.extend(rhs.lin);
                self.pool.push(H { m, model, lin });
                let k = self.pool.len() - 1;
                self.verify(k, lab, "join")?;
                if self.pool.len() > 6 {
                    let j = self.rng.below(self.pool.len());
                    self.pool.swap_remove(j);
                }
                touched.clear();
                self.core += 1;
            }
            Op::ForEach => {
                if !self.caps.avl {
                    return Ok(());
                }
                lab = "C08";
                label(lab);
                doing(|| format!("[{i}] for_each{}", if by_key { "_mut" } else { "" }));
                let want: Vec<(u32, u64)> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
                let mut got = vec![];
                if by_key {
                    self.pool[i].m.for_each_mut(&mut |k, v| {
                        got.push((k.key(), v.get()));
                        v.set(v.get() ^ 0x33);
                    });
                    for v in self.pool[i].model.values_mut() {
                        *v ^= 0x33;
                    }
                } else {
                    self.pool[i].m.for_each(&mut |k, v| got.push((k.key(), v.get())));
                    self.count_check("for_each", c0, 0, 0, None, n)?;
                }
                if got != want {
                    fail!(lab, "{}: for_each visited {} entries of {n}, or not in order", self.name, got.len());
                }
                self.core += 1;
            }
            Op::Cmp => {
                if !self.caps.full {
                    return Ok(());
                }
                lab = "C17";
                label(lab);
                let j = self.rng.below(self.pool.len());
                doing(|| format!("compare [{i}] with [{j}]"));
                self.compare_pair(i, j)?;
                self.count_check("comparison", c0, 0, 0, None, n)?;
                self.core += 1;
                if self.rng.chance(1, 2) && n <= 2000 {
                    // the same contents, built another way
                    let mut kvs: Vec<(u32, u64)> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
                    let mut model = self.pool[i].model.clone();
                    self.rng.shuffle(&mut kvs);
                    let near = self.rng.below(4);
                    if near == 1 && !kvs.is_empty() {
                        // almost the same contents
                        let x = self.rng.below(kvs.len());
                        let v = self.val();
                        kvs[x].1 = v;
                        model.insert(kvs[x].0, v);
                    } else if near == 2 && !kvs.is_empty() {
                        let x = kvs.pop().unwrap();
                        model.remove(&x.0);
                    }
                    let kv = self.mk(&kvs);
                    let m = self.proto.collect_new(kv);
                    let lin = self.lin();
                    self.pool.push(H { m, model, lin });
                    let k = self.pool.len() - 1;
                    self.compare_pair(i, k)?;
                    self.compare_pair(k, i)?;
                    if n <= 60 || self.rng.chance(1, 10) {
                        let (a, b) = (self.pool[i].m.debug(), self.pool[k].m.debug());
                        let same = self.pool[i].model == self.pool[k].model;
                        if (a == b) != same {
                            fail!(lab, "{}: maps with {} contents print as {a} and {b}", self.name, if same { "equal" } else { "different" });
                        }
                        let nums: Vec<u64> = a.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                        let want: Vec<u64> = self.pool[i].model.iter().flat_map(|(k, v)| [*k as u64, *v]).collect();
                        if nums != want {
                            fail!(lab, "{}: prints as {a}, its entries are {:?}", self.name, self.pool[i].model);
                        }
                    }
                    self.pool.pop();
                }
            }
            Op::NOPS => unreachable!(),
        }
        for t in touched {
            if t < self.pool.len() {
                let n = self.pool[t].model.len();
                let always = n <= 64 || self.rng.chance(1, n / 64 + 1);
                if always || self.pool[t].m.len() != n {
                    self.verify(t, lab, &format!("{op:?}"))?;
                }
            }
        }
        if lab_point == lab && matches!(op, Op::Insert | Op::Remove | Op::Pop | Op::GetMut | Op::Entry) {
            self.core += 1;
        }
        Ok(())
    }

    fn compare_pair(&mut self, i: usize, j: usize) -> R {
        let lab = "C17";
        let (a, b) = (&self.pool[i], &self.pool[j]);
        let want = a.model.iter().cmp(b.model.iter());
        let eq = a.m.eq_dyn(&*b.m);
        if eq != want.is_eq() {
            fail!(lab, "{}: == says {eq} for {:?} and {:?} entries that compare {want:?}", self.name, a.model.len(), b.model.len());
        }
        let c = a.m.cmp_dyn(&*b.m);
        let p = a.m.pcmp_dyn(&*b.m);
        if c != want || p != Some(want) {
            fail!(lab, "{}: cmp() = {c:?}, partial_cmp() = {p:?}, expected {want:?} (sizes {} and {})", self.name, a.model.len(), b.model.len());
        }
        if self.caps.hash && eq && a.m.hash64() != b.m.hash64() {
            fail!(lab, "{}: equal maps of {} entries hash differently", self.name, a.model.len());
        }
        Ok(())
    }

    fn bounds(&mut self, i: usize) -> Bd {
        let mk = |s: &mut Self| -> Bound<u32> {
            let k = s.pick_key(i);
            match s.rng.below(7) {
                0 => Unbounded,
                1..=3 => Included(k),
                _ => Excluded(k),
            }
        };
        let a = mk(self);
        let b = mk(self);
        let v = |b: &Bound<u32>| match b {
            Included(k) | Excluded(k) => Some(*k),
            _ => None,
        };
        if let (Some(x), Some(y)) = (v(&a), v(&b)) {
            if x > y && self.rng.chance(19, 20) {
                return (b, a);
            }
            if self.rng.chance(1, 6) {
                // narrow
                let w = self.rng.below(4) as u32;
                let y = x + w;
                return (a, if self.rng.chance(1, 2) { Included(y) } else { Excluded(y) });
            }
        }
        (a, b)
    }

    fn untouched(&mut self, before: &str) -> R {
        for i in 0..self.pool.len() {
            let n = self.pool[i].model.len();
            if n <= 64 || self.rng.chance(1, n / 64 + 1) {
                self.verify(i, "C02", before)?;
            }
        }
        Ok(())
    }

    fn run(&mut self, idx: u64) -> R {
        // size regime
        let (t, steps) = match self.rng.below(100) {
            0..=29 => (self.rng.range(0, 12), self.rng.range(10, 60)),
            30..=64 => (self.rng.range(8, 45), self.rng.range(20, 120)),
            65..=84 => (self.rng.range(40, 160), self.rng.range(30, 150)),
            85..=95 => (self.rng.range(150, 700), self.rng.range(30, 200)),
            _ => (self.rng.range(600, 4000), self.rng.range(20, 100)),
        };
        let (t, steps) = if idx == 5 {
            (80_000, 12)
        } else if idx % 1200 == 7 {
            // anything up to 100 000
            ((4000.0 * 25f64.powf(self.rng.below(1000) as f64 / 1000.0)) as usize, self.rng.range(8, 24))
        } else {
            (t, steps)
        };
        self.cap = t;
        self.uni = match self.rng.below(4) {
            0 => (t as u32 + t as u32 / 4).max(4),
            1 => (t as u32 * 2).max(8),
            2 => (t as u32 * 10).max(30),
            _ => 500_000,
        };
        let n0 = if self.rng.chance(1, 4) { 0 } else { t };
        doing(|| format!("start: {} of {n0} entries, keys below {}", self.name, self.uni));
        label("C08");
        let kvs = self.gen_kvs(n0);
        let kv = self.mk(&kvs);
        let m = if self.rng.chance(1, 2) {
            self.proto.collect_new(kv)
        } else {
            let mut m = self.proto.new_empty();
            for (k, v) in kv {
                m.insert(k, v);
            }
            m
        };
        let lin = self.lin();
        self.pool.push(H { m, model: kvs.into_iter().collect(), lin });
        self.verify(0, "C01", "construction")?;
        let base = weights(self.prop);
        let mut w = base;
        let mut left = 0;
        for s in 0..steps {
            if left == 0 {
                left = self.rng.range(5, 40);
                w = base;
                match self.rng.below(4) {
                    0 => w[Op::Insert as usize] *= 8,
                    1 => {
                        w[Op::Remove as usize] *= 6;
                        w[Op::Pop as usize] *= 3;
                    }
                    2 => {
                        w[Op::Clone as usize] *= 3;
                        w[Op::Remove as usize] *= 3;
                        w[Op::Insert as usize] *= 3;
                    }
                    _ => (),
                }
            }
            left -= 1;
            let o = OPS[self.rng.weighted(&w)];
            self.op(o)?;
            if !self.held.is_empty() && self.rng.chance(1, 3) {
                self.held_op()?;
            }
            self.stats.add("operations", 1);
            let tot: usize = self.pool.iter().map(|h| h.model.len()).sum();
            if tot <= 400 || s % 8 == 7 {
                self.untouched(&format!("after {o:?} on another map (or the same)"))?;
            }
            self.live(&format!("after {o:?}"))?;
        }
        for i in 0..self.pool.len() {
            self.verify(i, "C02", "at the end")?;
        }
        // drop in random order; what is left stays intact
        label("C05");
        while !self.pool.is_empty() {
            let i = self.rng.below(self.pool.len());
            doing(|| format!("[{i}] final drop"));
            self.pool.swap_remove(i);
            for i in 0..self.pool.len() {
                self.verify(i, "C02", "after dropping another map")?;
            }
            if !self.held.is_empty() && self.rng.chance(1, 2) {
                self.held_op()?;
            }
            self.live("final drops")?;
        }
        while !self.held.is_empty() {
            self.held_op()?;
        }
        self.registry("at the end")?;
        let (k, v) = tok::live();
        if k != 0 || v != 0 {
            soft!("C05", "{}: {k} keys and {v} values leaked", self.name);
        }
        Ok(())
    }
}

pub fn inverted(b: &Bd) -> bool {
    match b {
        (Included(x), Included(y)) => x > y,
        (Excluded(x), Excluded(y)) => x >= y,
        (Included(x) | Excluded(x), Included(y) | Excluded(y)) => x > y,
        _ => false,
    }
}

pub fn two<T>(v: &mut [T], i: usize, j: usize) -> (&mut T, &mut T) {
    assert!(i != j);
    if i < j {
        let (a, b) = v.split_at_mut(j);
        (&mut a[i], &mut b[0])
    } else {
        let (a, b) = v.split_at_mut(i);
        (&mut b[0], &mut a[j])
    }
}

fn one<K: KeyT, V: ValT>(prop: &'static str, proto: Box<dyn DynMap<K, V>>, rng: Rng, idx: u64, deep: bool) -> CaseOut {
    tok::reset();
    let mut e = Eng::new(prop, proto, rng, deep);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run(idx)));
    let mut out = CaseOut::default();
    let vs: Vec<Viol> = match r {
        Ok(Ok(())) => vec![],
        Ok(Err(v)) => vec![v],
        Err(_) => vec![Viol {
            prop: crate::run::cur_label(),
            msg: format!("{}: unexpected panic: {}", e.name, crate::run::panic_msg()),
        }],
    };
    out.viols = vs;
    let t = tok::totals();
    e.stats.add("elements_tracked", t.created);
    e.stats.add("element_events", t.uses);
    e.stats.max("max_entries", e.cap as u64);
    out.sig = mix(e.rng.u64() ^ mix(t.created.wrapping_mul(31).wrapping_add(t.uses)));
    out.nontrivial = e.core >= 5;
    out.states = std::mem::take(&mut e.states);
    out.stats = std::mem::take(&mut e.stats);
    // what is left may be damaged: do not run its destructors
    if !out.viols.is_empty() {
        std::mem::forget(e);
    }
    out
}

pub fn pick<K: KeyT, V: ValT>(t: usize) -> Box<dyn DynMap<K, V>> {
    match t {
        0 => Box::new(Avl::<K, V>::new()),
        1 => Box::new(BTree::<K, V, 1>::new()),
        2 => Box::new(BTree::<K, V, 2>::new()),
        3 => Box::new(BTree::<K, V, 3>::new()),
        4 => Box::new(BTree::<K, V, 5>::new()),
        5 => Box::new(BTree::<K, V, 16>::new()),
        7 => Box::new(BTree::<K, V, 40>::new()),
        _ => Box::new(Fixed::<K, V>::new()),
    }
}

fn hard(v: &Viol) -> bool {
    !matches!(v.prop, "C03" | "C04" | "C05")
}

#[cfg(feature = "maps")]
pub fn case(prop: &'static str, seed: u64, idx: u64) -> CaseOut {
    let go = |deep: bool| {
        let mut rng = Rng::derive(seed, idx);
        // AVL, B-trees by occupancy, fixed-node
        let full_only = matches!(prop, "C07" | "C08" | "C17");
        let w: &[u32] = match (prop, full_only) {
            (_, true) => &[6, 3, 3, 2, 3, 1, 0, 1],
            ("C06", _) => &[4, 2, 2, 1, 2, 1, 5, 1],
            _ => &[6, 3, 3, 2, 3, 1, 4, 1],
        };
        let t = rng.weighted(w);
        let kind = rng.below(3);
        match kind {
            0 => one::<tok::SKey, tok::SVal>(prop, pick(t), rng, idx, deep),
            1 => one::<tok::BKey, tok::BVal>(prop, pick(t), rng, idx, deep),
            _ => one::<tok::SKey, tok::BVal>(prop, pick(t), rng, idx, deep),
        }
    };
    let mut out = go(false);
    if prop == "C02" && out.viols.iter().all(|v| v.prop != "C02") && out.viols.iter().any(hard) {
        // does the same history go well when nothing is shared?
        let o2 = go(true);
        if !o2.viols.iter().any(hard) {
            let m = out.viols.iter().find(|v| hard(v)).unwrap().msg.clone();
            out.viols.push(Viol { prop: "C02", msg: format!("goes wrong only when parts are shared: {m}") });
        }
    }
    out
}
