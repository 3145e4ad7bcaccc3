//! Model-based workload over a pool of sets that share parts.  Elements carry a tag that comparisons ignore, so the monitors see
//! which of two equal elements is stored and handed out.
#![cfg_attr(not(feature = "sets"), allow(dead_code, unused_imports))]
use crate::api::*;
use crate::maps::{inverted, two};
use crate::rng::{mix, Rng};
use crate::run::{doing, label, CaseOut, Stats, Viol};
use crate::tok::{self, KeyT};
use crate::watch::*;
use crate::{counting, fail, soft};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound::{self, *};

/// key -> tag
pub type Model = BTreeMap<u32, u32>;

pub struct H<T: KeyT> {
    pub s: Box<dyn DynSet<T>>,
    pub model: Model,
    pub lin: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Op {
    Insert,
    Remove,
    Take,
    Replace,
    Get,
    Ends,
    Pop,
    Clone,
    CloneFrom,
    DropOne,
    Iter,
    Own,
    Range,
    Append,
    SplitOff,
    Retain,
    Extend,
    Collect,
    Algebra,
    Cmp,
    Clear,
    NOPS,
}
const OPS: [Op; Op::NOPS as usize] = [
    Op::Insert, Op::Remove, Op::Take, Op::Replace, Op::Get, Op::Ends, Op::Pop, Op::Clone, Op::CloneFrom, Op::DropOne, Op::Iter,
    Op::Own, Op::Range, Op::Append, Op::SplitOff, Op::Retain, Op::Extend, Op::Collect, Op::Algebra, Op::Cmp, Op::Clear,
];

fn weights(prop: &str) -> [u32; Op::NOPS as usize] {
    //          ins rem tak rpl get end pop cln clf drp it own rng app spl ret ext col alg cmp clr
    let mut w = [12, 8, 6, 5, 8, 4, 6, 6, 1, 3, 3, 2, 2, 1, 2, 1, 2, 1, 3, 2, 1];
    let mut up = |ops: &[Op], f: u32| {
        for o in ops {
            w[*o as usize] *= f
        }
    };
    use Op::*;
    match prop {
        "C02" => up(&[Clone, CloneFrom, DropOne, Remove, Take, Pop, Own, Algebra], 3),
        "C03" => up(&[Insert, Remove, Pop, SplitOff, Algebra, Append, Retain], 3),
        "C05" => up(&[Own, SplitOff, Retain, Append, Clear, Collect, Algebra, Replace], 4),
        "C06" => up(&[Iter, Own], 15),
        "C07" => up(&[Range], 25),
        "C09" => up(&[Algebra], 20),
        "C10" => up(&[Insert, Remove, Take, Replace, Get, Append, SplitOff, Retain, Extend], 3),
        "C17" => up(&[Cmp], 20),
        _ => (),
    }
    w
}

pub struct Eng<T: KeyT> {
    prop: &'static str,
    rng: Rng,
    pool: Vec<H<T>>,
    proto: Box<dyn DynSet<T>>,
    bnd: Bounds,
    deep: bool,
    stats: Stats,
    states: Vec<u64>,
    next_lin: u32,
    uni: u32,
    cap: usize,
    core: u64,
    name: String,
    tag: u32,
    held: Vec<Held<T, El>>,
}

/// compare by key only, taking over the tag where either of two equal elements may be the one kept
fn first_diff(got: &[El], want: &Model) -> Option<String> {
    if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1) {
        return None;
    }
    let w: Vec<El> = want.iter().map(|(k, v)| (*k, *v)).collect();
    let i = got.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
    Some(format!("{} elements, expected {}; at position {i}: {:?}, expected {:?} (element, tag)", got.len(), w.len(), got.get(i), w.get(i)))
}

impl<T: KeyT> Eng<T> {
    fn lin(&mut self) -> Vec<u32> {
        self.next_lin += 1;
        vec![self.next_lin]
    }
    fn newtag(&mut self) -> u32 {
        self.tag = (self.tag + 1) & 0xfff;
        self.tag
    }
    fn shared(&self, i: usize) -> bool {
        (0..self.pool.len()).any(|j| j != i && self.pool[j].lin.iter().any(|x| self.pool[i].lin.contains(x))) || self.held.iter().any(|h| h.lin.iter().any(|x| self.pool[i].lin.contains(x)))
    }
    fn any_shared(&self) -> bool {
        !self.held.is_empty() || (0..self.pool.len()).any(|i| self.shared(i))
    }
    /// steps or drops a consuming iterator that was kept
    fn held_op(&mut self) -> R {
        label("C06");
        let j = self.rng.below(self.held.len());
        if self.rng.chance(1, 8) {
            doing(|| format!("held iterator {j}: dropped"));
            self.held.swap_remove(j);
            return Ok(());
        }
        doing(|| format!("held iterator {j}: some steps"));
        let done = self.held[j].step("C06", false, &mut self.rng, |x, w| {
            if (x.key(), x.tag()) != *w {
                return Err(format!("{:?}, expected {w:?}", (x.key(), x.tag())));
            }
            Ok(())
        })?;
        self.stats.add("steps_of_held_iterators", 1);
        if done {
            self.held.swap_remove(j);
        }
        Ok(())
    }
    fn pick_key(&mut self, i: usize) -> u32 {
        let m = &self.pool[i].model;
        if !m.is_empty() && self.rng.chance(75, 100) {
            let r = self.rng.below(self.uni as usize) as u32;
            let k = *m.range(r..).next().or_else(|| m.iter().next()).unwrap().0;
            match self.rng.below(8) {
                0 => k + 1,
                1 => k.saturating_sub(1),
                2 => *m.iter().next_back().unwrap().0,
                3 => *m.iter().next().unwrap().0,
                _ => k,
            }
        } else {
            self.rng.below(self.uni as usize) as u32
        }
    }
    fn gen(&mut self, n: usize) -> Vec<El> {
        let kind = self.rng.below(5);
        let mut ks: Vec<u32> = match kind {
            0 => {
                let s = self.rng.below(self.uni as usize) as u32;
                (0..n as u32).map(|j| s + j).collect()
            }
            _ => (0..n).map(|_| self.rng.below(self.uni as usize) as u32).collect(),
        };
        match kind {
            1 => ks.sort(),
            2 => {
                ks.sort();
                ks.reverse()
            }
            _ => (),
        }
        ks.into_iter().map(|k| (k, self.newtag())).collect()
    }
    fn mk(xs: &[El]) -> Vec<T> {
        xs.iter().map(|(k, t)| T::mk(*k, *t)).collect()
    }
    fn fresh(&mut self, xs: &[El]) -> R<H<T>> {
        let s = self.proto.collect_new(Self::mk(xs));
        let lin = self.lin();
        let mut h = H { s, model: Model::new(), lin };
        let mut ok: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
        for (k, t) in xs {
            ok.entry(*k).or_default().insert(*t);
        }
        adopt(&self.name, "C10", "collect", &mut h, &ok)?;
        Ok(h)
    }
    fn clone_handle(&mut self, i: usize) -> R<H<T>> {
        if self.deep {
            let xs: Vec<El> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
            let s = self.proto.collect_new(Self::mk(&xs));
            let lin = self.lin();
            return Ok(H { s, model: self.pool[i].model.clone(), lin });
        }
        label("C02");
        let (k0, a0, b0) = (tok::kclones(), counting::allocs(), counting::bytes());
        let s = self.pool[i].s.clone_box();
        let (a1, b1) = (counting::allocs(), counting::bytes());
        let n = self.pool[i].model.len();
        if tok::kclones() != k0 {
            soft!("C04", "clone() of a {} with {n} elements copied {} elements", self.name, tok::kclones() - k0);
        }
        if a1 - a0 > 5 || b1 - b0 > 300 {
            soft!("C04", "clone() of a {} with {n} elements made {} allocations ({} bytes)", self.name, a1 - a0, b1 - b0);
        }
        self.stats.add("clones", 1);
        Ok(H { s, model: self.pool[i].model.clone(), lin: self.pool[i].lin.clone() })
    }
    fn push(&mut self, h: H<T>) -> usize {
        if self.pool.len() >= 6 {
            let j = self.rng.below(self.pool.len());
            self.pool[j] = h;
            j
        } else {
            self.pool.push(h);
            self.pool.len() - 1
        }
    }

    fn verify_h(&self, h: &H<T>, lab: &'static str, what: &str) -> R {
        label(lab);
        let n = h.model.len();
        if h.s.len() != n || h.s.is_empty() != (n == 0) {
            fail!(lab, "{}: {what}: len() = {}, is_empty() = {}, expected {n} elements", self.name, h.s.len(), h.s.is_empty());
        }
        let got = seq(&*h.s, n);
        if let Some(d) = first_diff(&got, &h.model) {
            let ok = h.model.iter().all(|(k, t)| h.s.get(*k, false) == Some((*k, *t)))
                && got.iter().all(|(k, _)| h.s.contains(*k, false) == h.model.contains_key(k));
            fail!(if ok { "C06" } else { lab }, "{}: {what}: contents: {d}", self.name);
        }
        label("C03");
        if let Err(e) = h.s.check() {
            soft!("C03", "{}: {what}: invariant check of a set of {n} elements: {e}", self.name);
        }
        label(lab);
        Ok(())
    }
    fn verify(&mut self, i: usize, lab: &'static str, what: &str) -> R {
        self.verify_h(&self.pool[i], lab, what)?;
        self.stats.add("elements_compared", self.pool[i].model.len() as u64);
        Ok(())
    }
    fn live(&mut self, what: &str) -> R {
        let e = tok::take_errs();
        if let Some(e) = e.first() {
            soft!("C05", "{}: {what}: {e}", self.name);
        }
        let (k, _) = tok::live();
        let tot: usize = self.pool.iter().map(|h| h.model.len()).sum::<usize>() + self.held.iter().map(|h| h.len()).sum::<usize>();
        let max = self.pool.iter().map(|h| h.model.len()).max().unwrap_or(0);
        if !self.any_shared() {
            if k != tot {
                soft!("C05", "{}: {what}: {k} live elements in unshared sets of {tot} elements in all", self.name);
            }
            self.stats.add("exact_live_counts", 1);
        } else if k > tot || k < max {
            soft!("C05", "{}: {what}: {k} live elements, the sets hold {tot} in all, the largest {max}", self.name);
        }
        Ok(())
    }
    fn count_check(&self, what: &str, c0: (u64, u64), copies: u64, extra: u64, cmps: Option<u64>, n: usize) -> R {
        let (k, c) = (tok::kclones() - c0.0, tok::cmps() - c0.1);
        if k > copies + extra {
            soft!("C04", "{}: {what} on a set of {n} elements copied {k} (at most {} allowed)", self.name, copies + extra);
        }
        if let Some(m) = cmps {
            if c > m {
                soft!("C03", "{}: {what} on a set of {n} elements made {c} comparisons (at most {m} allowed)", self.name);
            }
        }
        Ok(())
    }
    fn counts() -> (u64, u64) {
        (tok::kclones(), tok::cmps())
    }

    fn op(&mut self, op: Op) -> R {
        let i = self.rng.below(self.pool.len());
        let n = self.pool[i].model.len();
        let sh = self.shared(i);
        let by_key = self.rng.chance(1, 3);
        self.stats.add(if sh { "operations_on_shared" } else { "operations_on_unshared" }, 1);
        self.states.push(mix(op as u64 * 1000 + (n.min(64) as u64) * 4 + sh as u64 * 2 + self.bnd.n as u64 * 7_000_003 + by_key as u64));
        let c0 = Self::counts();
        let copies = if sh { self.bnd.copies(n + 1) } else { 0 };
        let path = if sh { self.bnd.copies_path(n + 1) } else { 0 };
        let cb = Some(self.bnd.cmps(n + 1));
        let mut lab: &'static str = "C10";
        let mut touched = vec![i];
        label(lab);
        match op {
            Op::Insert => {
                let k = self.pick_key(i);
                let t = self.newtag();
                doing(|| format!("[{i}] insert({k})"));
                let want = !self.pool[i].model.contains_key(&k);
                let got = self.pool[i].s.insert(T::mk(k, t));
                if got != want {
                    fail!(lab, "{}: insert({k}) returned {got}, expected {want}", self.name);
                }
                self.count_check("insert", c0, path, 0, cb, n)?;
                self.pin(i, k, &[t], lab, "insert")?;
                self.core += 1;
            }
            Op::Replace => {
                let k = self.pick_key(i);
                let t = self.newtag();
                doing(|| format!("[{i}] replace({k})"));
                let want = self.pool[i].model.insert(k, t).map(|t| (k, t));
                let got = self.pool[i].s.replace(T::mk(k, t)).map(|x| (x.key(), x.tag()));
                if got != want {
                    fail!(lab, "{}: replace({k}) returned {got:?}, expected {want:?} (element, tag)", self.name);
                }
                let st = self.pool[i].s.get(k, false);
                if st != Some((k, t)) {
                    fail!(lab, "{}: after replace({k} with tag {t}) the stored element is {st:?}", self.name);
                }
                self.count_check("replace", c0, copies * 2, 2, cb.map(|x| 3 * x), n)?;
                self.core += 1;
            }
            Op::Remove => {
                let k = self.pick_key(i);
                doing(|| format!("[{i}] remove({k})"));
                let want = self.pool[i].model.remove(&k).is_some();
                let got = self.pool[i].s.remove(k, by_key);
                if got != want {
                    fail!(lab, "{}: remove({k}) returned {got}, expected {want}", self.name);
                }
                self.count_check("remove", c0, copies, 0, cb, n)?;
                self.core += 1;
            }
            Op::Take => {
                let k = self.pick_key(i);
                doing(|| format!("[{i}] take({k})"));
                let want = self.pool[i].model.remove_entry(&k);
                let got = self.pool[i].s.take(k, by_key).map(|x| (x.key(), x.tag()));
                if got != want {
                    fail!(lab, "{}: take({k}) returned {got:?}, expected {want:?} (element, tag)", self.name);
                }
                self.count_check("take", c0, copies * 2, 2, cb.map(|x| 3 * x), n)?;
                self.core += 1;
            }
            Op::Get => {
                for _ in 0..3 {
                    let k = self.pick_key(i);
                    let c0 = Self::counts();
                    doing(|| format!("[{i}] get({k})"));
                    let h = &self.pool[i];
                    let want = h.model.get(&k).map(|t| (k, *t));
                    let got = h.s.get(k, by_key);
                    if got != want {
                        fail!(lab, "{}: get({k}) returned {got:?}, expected {want:?} (element, tag)", self.name);
                    }
                    let c = h.s.contains(k, by_key);
                    if c != want.is_some() {
                        fail!(lab, "{}: contains({k}) = {c}, expected {}", self.name, want.is_some());
                    }
                    self.count_check("get and contains", c0, 0, 0, cb.map(|x| 2 * x), n)?;
                }
            }
            Op::Ends => {
                let last = by_key;
                doing(|| format!("[{i}] first/last"));
                let m = &self.pool[i].model;
                let want = if last { m.iter().next_back() } else { m.iter().next() }.map(|(k, v)| (*k, *v));
                let got = self.pool[i].s.first_last(last);
                if got != want {
                    fail!(lab, "{}: {}() returned {got:?}, expected {want:?} (element, tag)", self.name, if last { "last" } else { "first" });
                }
                self.count_check("first/last", c0, 0, 0, cb, n)?;
            }
            Op::Pop => {
                let last = by_key;
                for _ in 0..self.rng.range(1, 3) {
                    doing(|| format!("[{i}] pop_{}", if last { "last" } else { "first" }));
                    let c0 = Self::counts();
                    let m = &mut self.pool[i].model;
                    let want = if last { m.pop_last() } else { m.pop_first() };
                    let got = self.pool[i].s.pop(last).map(|x| (x.key(), x.tag()));
                    if got != want {
                        fail!(lab, "{}: pop_{}() returned {got:?}, expected {want:?} (element, tag)", self.name, if last { "last" } else { "first" });
                    }
                    self.count_check("pop", c0, copies, 0, cb, n)?;
                    self.core += 1;
                }
            }
            Op::Clone => {
                doing(|| format!("[{i}] clone"));
                let h = self.clone_handle(i)?;
                if !h.s.eq_dyn(&*self.pool[i].s) || h.s.len() != n {
                    fail!("C02", "{}: a fresh clone of {n} elements differs from its original", self.name);
                }
                let k = self.push(h);
                touched = vec![k];
                lab = "C02";
            }
            Op::CloneFrom => {
                let j = self.rng.below(self.pool.len());
                if i == j {
                    return Ok(());
                }
                doing(|| format!("[{i}] clone_from([{j}])"));
                label("C02");
                if self.deep {
                    self.pool[i] = self.clone_handle(j)?;
                } else {
                    let (a, b) = two(&mut self.pool, i, j);
                    a.s.clone_from_dyn(&*b.s);
                    a.model = b.model.clone();
                    a.lin = b.lin.clone();
                }
                lab = "C02";
            }
            Op::DropOne => {
                if self.pool.len() < 2 {
                    return Ok(());
                }
                doing(|| format!("[{i}] drop"));
                label("C05");
                self.pool.swap_remove(i);
                touched.clear();
            }
            Op::Clear => match self.rng.below(3) {
                0 => {
                    doing(|| format!("[{i}] clear"));
                    self.pool[i].s.clear();
                    self.pool[i].model.clear();
                    self.pool[i].lin = self.lin();
                }
                1 => {
                    doing(|| format!("[{i}] take"));
                    let s = self.pool[i].s.take_box();
                    let h = H { s, model: std::mem::take(&mut self.pool[i].model), lin: self.pool[i].lin.clone() };
                    self.verify(i, lab, "after being taken")?;
                    self.pool[i] = h;
                }
                _ => return Ok(()),
            },
            Op::Iter => {
                lab = "C06";
                label(lab);
                let kind = *self.rng.pick(&[SetIt::Iter, SetIt::RefInto]);
                let d = Drive::rand(&mut self.rng, true);
                doing(|| format!("[{i}] {kind:?} abandon={} dir={}", d.abandon, d.dir));
                let want: Vec<El> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
                let what = format!("{}: {kind:?}", self.name);
                let mut r = self.rng.clone();
                let vis = drive(lab, &what, self.pool[i].s.ro(kind), n, &d, &mut r, |x, ix| {
                    if x != want[ix] {
                        return Err(format!("{x:?}, expected {:?}", want[ix]));
                    }
                    Ok(())
                })?;
                self.rng.u64();
                self.stats.add("iterator_steps", vis.steps);
                self.core += vis.steps;
                self.count_check("read-only iteration", c0, 0, 0, None, n)?;
            }
            Op::Own => {
                lab = "C06";
                label(lab);
                let h = if self.pool.len() > 1 && self.rng.chance(1, 2) {
                    touched.clear();
                    self.pool.swap_remove(i)
                } else {
                    self.clone_handle(i)?
                };
                label(lab);
                let d = Drive::rand(&mut self.rng, true);
                doing(|| format!("[{i}] into_iter abandon={} dir={}", d.abandon, d.dir));
                let want: Vec<El> = h.model.iter().map(|(k, v)| (*k, *v)).collect();
                let what = format!("{}: into_iter", self.name);
                if self.held.len() < 2 && n > 0 && self.rng.chance(1, 3) {
                    self.held.push(Held::new(h.s.own(), want, what, h.lin));
                    return self.held_op();
                }
                let mut r = self.rng.clone();
                let mut kept = vec![];
                let keep = r.chance(1, 2);
                let vis = drive(lab, &what, h.s.own(), n, &d, &mut r, |x, ix| {
                    if (x.key(), x.tag()) != want[ix] {
                        return Err(format!("{:?}, expected {:?}", (x.key(), x.tag()), want[ix]));
                    }
                    if keep {
                        kept.push(x);
                    }
                    Ok(())
                })?;
                self.rng.u64();
                for x in &kept {
                    x.key();
                }
                drop(kept);
                self.stats.add("iterator_steps", vis.steps);
                self.core += vis.steps;
            }
            Op::Range => {
                lab = "C07";
                label(lab);
                let b = self.bounds(i);
                let bad = inverted(&b);
                let d = Drive::rand(&mut self.rng, false);
                let want: Vec<El> = if bad { vec![] } else { self.pool[i].model.range::<u32, Bd>(b).map(|(k, v)| (*k, *v)).collect() };
                let m = want.len();
                doing(|| format!("[{i}] range {b:?} of {m}/{n}"));
                let what = format!("{}: range({b:?}) of a set of {n} elements", self.name);
                let mut r = self.rng.clone();
                self.rng.u64();
                self.core += 1;
                let h = &self.pool[i];
                let mut body = || -> R<u64> {
                    let v = drive(lab, &what, h.s.range(b, by_key), m, &d, &mut r, |x, ix| {
                        if x != want[ix] {
                            return Err(format!("{x:?}, expected {:?}", want[ix]));
                        }
                        Ok(())
                    })?;
                    Ok(v.steps)
                };
                if bad {
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)) {
                        Ok(r) => {
                            r?;
                        }
                        Err(_) => self.stats.add("inverted_bounds_panics", 1),
                    }
                    self.stats.add("inverted_bounds", 1);
                } else {
                    let s = body()?;
                    self.stats.add("iterator_steps", s);
                }
                self.count_check("range", c0, 0, 0, None, n)?;
            }
            Op::Append => {
                let j = self.rng.below(self.pool.len());
                let mut b = if i != j && self.rng.chance(1, 2) {
                    let e = self.proto.new_empty();
                    let nl = self.lin();
                    std::mem::replace(&mut self.pool[j], H { s: e, model: Model::new(), lin: nl })
                } else {
                    self.clone_handle(j)?
                };
                label(lab);
                if self.rng.chance(1, 2) {
                    let k = self.pick_key(i);
                    drop(b.s.split_off(k, false));
                    b.model.split_off(&k);
                }
                doing(|| format!("[{i}] append([{j}] or a clone, {} elements)", b.model.len()));
                let ok = either(&self.pool[i].model, &b.model);
                let a = &mut self.pool[i];
                a.s.append(&mut *b.s);
                a.lin.extend(b.lin);
                if b.s.len() != 0 || !b.s.is_empty() || b.s.first_last(false).is_some() {
                    fail!(lab, "{}: append left {} elements in its operand", self.name, b.s.len());
                }
                adopt(&self.name, lab, "append", a, &ok)?;
                self.core += 1;
            }
            Op::SplitOff => {
                let k = self.pick_key(i);
                doing(|| format!("[{i}] split_off({k})"));
                let s = self.pool[i].s.split_off(k, by_key);
                let model = self.pool[i].model.split_off(&k);
                let lin = self.pool[i].lin.clone();
                self.verify(i, lab, "lower part after split_off")?;
                let h = H { s, model, lin };
                self.verify_h(&h, lab, "upper part after split_off")?;
                if self.rng.chance(1, 2) && self.pool.len() < 6 {
                    self.pool.push(h);
                } else if h.model.len() > self.pool[i].model.len() {
                    self.pool[i] = h;
                }
                self.core += 1;
            }
            Op::Retain => {
                let md = self.rng.range(2, 12) as u64;
                let salt = self.rng.u64();
                let keep_few = self.rng.chance(1, 5);
                let decide = |k: u32| (mix(k as u64 ^ salt) % md == 0) == keep_few;
                doing(|| format!("[{i}] retain(md={md}, keep_few={keep_few}) of {n}"));
                let want: Vec<El> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
                let mut calls = vec![];
                self.pool[i].s.retain(&mut |x| {
                    calls.push((x.key(), x.tag()));
                    decide(x.key())
                });
                if calls != want {
                    fail!(lab, "{}: retain called its closure {} times on {n} elements, or not in ascending order", self.name, calls.len());
                }
                self.pool[i].model.retain(|k, _| decide(*k));
                self.core += 1;
            }
            Op::Extend => {
                let c = if n >= self.cap { self.rng.below(4) } else { self.rng.below(self.cap / 2 + 3) };
                let xs = self.gen(c);
                let by_ref = self.rng.chance(1, 2);
                doing(|| format!("[{i}] extend{}({xs:?})", if by_ref { "_ref" } else { "" }));
                let mut ok = either(&self.pool[i].model, &Model::new());
                for (k, t) in &xs {
                    ok.entry(*k).or_default().insert(*t);
                }
                let v = Self::mk(&xs);
                if by_ref {
                    self.pool[i].s.extend_ref(&v);
                    drop(v);
                } else {
                    let how = self.rng.below(10);
                    self.pool[i].s.extend(&mut Hinted::new(v.into_iter(), how));
                }
                adopt(&self.name, lab, "extend", &mut self.pool[i], &ok)?;
                self.core += 1;
            }
            Op::Collect => {
                let c = self.rng.below(self.cap + 1);
                let arr = self.rng.chance(1, 4);
                let xs = self.gen(if arr { 4 } else { c });
                doing(|| format!("collect({xs:?})"));
                let h = if arr {
                    let Ok(a): Result<[T; 4], _> = Self::mk(&xs).try_into() else { unreachable!() };
                    let s = self.proto.from_arr(a);
                    let lin = self.lin();
                    let mut ok: Ok_ = BTreeMap::new();
                    for (k, t) in &xs {
                        ok.entry(*k).or_default().insert(*t);
                    }
                    let mut h = H { s, model: Model::new(), lin };
                    adopt(&self.name, lab, "from array", &mut h, &ok)?;
                    h
                } else {
                    self.fresh(&xs)?
                };
                if self.pool.len() < 5 {
                    self.pool.push(h);
                    touched = vec![self.pool.len() - 1];
                } else {
                    self.pool[i] = h;
                }
                self.core += 1;
            }
            Op::Algebra => {
                lab = "C09";
                let b = self.operand(i)?;
                label(lab);
                self.algebra(i, b)?;
                touched.clear();
                self.core += 1;
            }
            Op::Cmp => {
                lab = "C17";
                label(lab);
                let j = self.rng.below(self.pool.len());
                doing(|| format!("compare [{i}] with [{j}]"));
                self.compare_pair(i, j)?;
                self.count_check("comparison", c0, 0, 0, None, n)?;
                if self.rng.chance(1, 2) && n <= 2000 {
                    let mut xs: Vec<El> = self.pool[i].model.iter().map(|(k, v)| (*k, *v)).collect();
                    self.rng.shuffle(&mut xs);
                    match self.rng.below(4) {
                        1 if !xs.is_empty() => {
                            xs.pop();
                        }
                        2 => {
                            let k = self.pick_key(i);
                            if !self.pool[i].model.contains_key(&k) {
                                xs.push((k, 1));
                            }
                        }
                        _ => (),
                    }
                    let h = self.fresh(&xs)?;
                    label(lab);
                    self.pool.push(h);
                    let k = self.pool.len() - 1;
                    self.compare_pair(i, k)?;
                    self.compare_pair(k, i)?;
                    if n <= 60 || self.rng.chance(1, 10) {
                        let (a, b) = (self.pool[i].s.debug(), self.pool[k].s.debug());
                        let same = self.pool[i].model.keys().eq(self.pool[k].model.keys());
                        if (a == b) != same {
                            fail!(lab, "{}: sets with {} contents print as {a} and {b}", self.name, if same { "equal" } else { "different" });
                        }
                        let nums: Vec<u32> = a.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                        if !nums.iter().eq(self.pool[i].model.keys()) {
                            fail!(lab, "{}: prints as {a}, its elements are {:?}", self.name, self.pool[i].model.keys());
                        }
                    }
                    self.pool.pop();
                }
                self.core += 1;
            }
            Op::NOPS => unreachable!(),
        }
        for t in touched {
            if t < self.pool.len() {
                let n = self.pool[t].model.len();
                if n <= 64 || self.rng.chance(1, n / 64 + 1) || self.pool[t].s.len() != n {
                    self.verify(t, lab, &format!("{op:?}"))?;
                }
            }
        }
        Ok(())
    }

    /// insertion of an element that may be equal to a stored one: either may be the one stored now
    fn pin(&mut self, i: usize, k: u32, tags: &[u32], lab: &'static str, what: &str) -> R {
        let st = self.pool[i].s.get(k, false);
        let old = self.pool[i].model.get(&k).copied();
        match st {
            Some((k2, t)) if k2 == k && (old == Some(t) || tags.contains(&t)) => {
                self.pool[i].model.insert(k, t);
                Ok(())
            }
            _ => fail!(lab, "{}: after {what}({k}) the stored element is {st:?}, which was never given to it", self.name),
        }
    }

    fn compare_pair(&mut self, i: usize, j: usize) -> R {
        let lab = "C17";
        let (a, b) = (&self.pool[i], &self.pool[j]);
        let want = a.model.keys().cmp(b.model.keys());
        let eq = a.s.eq_dyn(&*b.s);
        if eq != want.is_eq() {
            fail!(lab, "{}: == says {eq} for {} and {} elements that compare {want:?}", self.name, a.model.len(), b.model.len());
        }
        let c = a.s.cmp_dyn(&*b.s);
        let p = a.s.pcmp_dyn(&*b.s);
        if c != want || p != Some(want) {
            fail!(lab, "{}: cmp() = {c:?}, partial_cmp() = {p:?}, expected {want:?} (sizes {} and {})", self.name, a.model.len(), b.model.len());
        }
        if eq && a.s.hash64() != b.s.hash64() {
            fail!(lab, "{}: equal sets of {} elements hash differently", self.name, a.model.len());
        }
        Ok(())
    }

    fn operand(&mut self, i: usize) -> R<H<T>> {
        let n = self.pool[i].model.len();
        let kind = self.rng.below(9);
        doing(|| format!("second operand of kind {kind}"));
        match kind {
            0 | 1 => {
                let j = self.rng.below(self.pool.len());
                self.clone_handle(j)
            }
            2 => self.clone_handle(i),
            3 | 4 => {
                // a clone that differs a little
                let mut h = self.clone_handle(i)?;
                label("C10");
                for _ in 0..self.rng.range(1, 4) {
                    let k = self.pick_key(i);
                    if self.rng.chance(1, 2) {
                        h.s.remove(k, false);
                        h.model.remove(&k);
                    } else if !h.model.contains_key(&k) {
                        let t = self.newtag();
                        h.s.insert(T::mk(k, t));
                        h.model.insert(k, t);
                    }
                }
                Ok(h)
            }
            5 => {
                // subset (or superset) built afresh
                let md = self.rng.range(1, 9) as u64;
                let salt = self.rng.u64();
                let keep_few = self.rng.chance(1, 2);
                let ks: Vec<u32> = self.pool[i].model.keys().copied().filter(|k| (mix(*k as u64 ^ salt) % md == 0) == keep_few).collect();
                let mut xs: Vec<El> = ks.into_iter().map(|k| (k, self.newtag())).collect();
                if self.rng.chance(1, 3) {
                    let e = self.gen(1);
                    xs.extend(e);
                }
                self.fresh(&xs)
            }
            6 => {
                // very different size
                let c = *self.rng.pick(&[0, 1, 2, 5, n / 20, n / 8, n / 3, 2 * n + 3]);
                let xs = self.gen(c.min(6000));
                self.fresh(&xs)
            }
            7 => {
                // disjoint: all below, all above, or in the gaps
                let lo = *self.pool[i].model.keys().next().unwrap_or(&100);
                let hi = *self.pool[i].model.keys().next_back().unwrap_or(&100);
                let c = self.rng.below(n + 5);
                let ks: Vec<u32> = match self.rng.below(3) {
                    0 => (0..c as u32).map(|j| hi + 1 + j * 2).collect(),
                    1 => (0..c as u32).filter_map(|j| lo.checked_sub(1 + j)).collect(),
                    _ => self.pool[i].model.keys().map(|k| k + 1).filter(|k| !self.pool[i].model.contains_key(k)).collect(),
                };
                let xs: Vec<El> = ks.into_iter().map(|k| (k, self.newtag())).collect();
                self.fresh(&xs)
            }
            _ => {
                let c = self.rng.below(self.cap + 2);
                let xs = self.gen(c);
                self.fresh(&xs)
            }
        }
    }

    fn algebra(&mut self, i: usize, b: H<T>) -> R {
        let lab = "C09";
        let op = *self.rng.pick(&[Bin::Union, Bin::Inter, Bin::Diff, Bin::SymDiff]);
        let swap = self.rng.chance(1, 2);
        let mode = self.rng.below(4);
        let lin = self.lin();
        let (na, nb) = (self.pool[i].model.len(), b.model.len());
        let a = &self.pool[i];
        let (l, r) = if swap { (&b, a) } else { (a, &b) };
        let (x, y) = (&l.model, &r.model);
        let want: Vec<u32> = {
            let (x, y): (BTreeSet<u32>, BTreeSet<u32>) = (x.keys().copied().collect(), y.keys().copied().collect());
            match op {
                Bin::Union => x.union(&y).copied().collect(),
                Bin::Inter => x.intersection(&y).copied().collect(),
                Bin::Diff => x.difference(&y).copied().collect(),
                Bin::SymDiff => x.symmetric_difference(&y).copied().collect(),
            }
        };
        let allowed = |(k, t): El| x.get(&k) == Some(&t) || y.get(&k) == Some(&t);
        doing(|| format!("{op:?} mode {mode} of [{i}] ({na}) and another ({nb}), swap={swap}"));
        let what = format!("{}: {op:?} of {} and {} elements", self.name, x.len(), y.len());
        match mode {
            0 => {
                // relations
                let (dis, sub, sup) = l.s.relations(&*r.s);
                let wd = !x.keys().any(|k| y.contains_key(k));
                let wsub = x.keys().all(|k| y.contains_key(k));
                let wsup = y.keys().all(|k| x.contains_key(k));
                if (dis, sub, sup) != (wd, wsub, wsup) {
                    fail!(
                        lab,
                        "{}: of {} and {} elements: is_disjoint {dis} (expected {wd}), is_subset {sub} (expected {wsub}), is_superset {sup} (expected {wsup})",
                        self.name,
                        x.len(),
                        y.len()
                    );
                }
                self.stats.add("set_relations", 3);
            }
            1 => {
                let d = Drive { abandon: self.rng.chance(1, 4), steps_back: false, dir: 1, exact: false };
                let c0 = tok::kclones();
                let vis = drive(lab, &what, l.s.lazy(op, &*r.s), want.len(), &d, &mut self.rng, |e, ix| {
                    if e.0 != want[ix] || !allowed(e) {
                        return Err(format!("{e:?}, expected {}", want[ix]));
                    }
                    Ok(())
                })?;
                if tok::kclones() != c0 {
                    soft!("C04", "{what}: the lazy iterator copied {} elements", tok::kclones() - c0);
                }
                self.stats.add("iterator_steps", vis.steps);
                self.stats.add("lazy_set_operations", 1);
            }
            2 => {
                let s = l.s.operator(op, &*r.s);
                let mut h = H { s, model: Model::new(), lin };
                let ok = want.iter().map(|k| (*k, [x.get(k), y.get(k)].into_iter().flatten().copied().collect())).collect();
                adopt(&what, lab, "operator", &mut h, &ok)?;
                self.verify_h(&h, lab, "operator result")?;
                // the result may share parts with its operands
                h.lin.extend(self.pool[i].lin.iter().copied());
                h.lin.extend(b.lin.iter().copied());
                self.stats.add("set_operators", 1);
                if self.rng.chance(1, 3) {
                    self.push_keep(i, h);
                }
            }
            _ => {
                let ok: Ok_ = want.iter().map(|k| (*k, [x.get(k), y.get(k)].into_iter().flatten().copied().collect())).collect();
                let a2 = self.clone_handle(i)?;
                label(lab);
                let mut lin = a2.lin.clone();
                lin.extend(b.lin.iter().copied());
                let keep_b = self.rng.chance(1, 3);
                let (s, b) = {
                    let (p, q, kept) = if keep_b {
                        let c = b.s.clone_box();
                        let m = b.model.clone();
                        let l2 = b.lin.clone();
                        (a2.s, c, Some(H { s: b.s, model: m, lin: l2 }))
                    } else {
                        (a2.s, b.s, None)
                    };
                    (if swap { q.consume(op, p) } else { p.consume(op, q) }, kept)
                };
                let mut h = H { s, model: Model::new(), lin };
                adopt(&what, lab, "consuming", &mut h, &ok)?;
                self.verify_h(&h, lab, "result")?;
                if let Some(b) = &b {
                    self.verify_h(b, "C02", "the operand of a set operation on its clone")?;
                }
                self.stats.add("consuming_set_operations", 1);
                if self.rng.chance(1, 3) {
                    self.push_keep(i, h);
                }
                drop(b);
                self.verify(i, "C02", "after a set operation on a clone")?;
                return Ok(());
            }
        }
        self.verify_h(&b, lab, "second operand afterwards")?;
        self.verify(i, lab, "first operand afterwards")?;
        if self.rng.chance(1, 4) {
            self.push_keep(i, b);
        }
        Ok(())
    }
    fn push_keep(&mut self, _i: usize, h: H<T>) {
        if h.model.len() <= 3 * self.cap + 10 {
            self.push(h);
        }
    }

    fn bounds(&mut self, i: usize) -> Bd {
        let mk = |s: &mut Self| -> Bound<u32> {
            let k = s.pick_key(i);
            match s.rng.below(7) {
                0 => Unbounded,
                1..=3 => Included(k),
                _ => Excluded(k),
            }
        };
        let a = mk(self);
        let b = mk(self);
        if inverted(&(a, b)) && self.rng.chance(19, 20) {
            return (b, a);
        }
        (a, b)
    }

    fn run(&mut self, idx: u64) -> R {
        let (t, steps) = match self.rng.below(100) {
            0..=29 => (self.rng.range(0, 12), self.rng.range(10, 60)),
            30..=64 => (self.rng.range(8, 45), self.rng.range(20, 120)),
            65..=84 => (self.rng.range(40, 160), self.rng.range(30, 150)),
            85..=95 => (self.rng.range(150, 700), self.rng.range(30, 200)),
            _ => (self.rng.range(600, 4000), self.rng.range(20, 100)),
        };
        let (t, steps) = if idx == 5 {
            (80_000, 12)
        } else if idx % 1200 == 7 {
            // anything up to 100 000
            ((4000.0 * 25f64.powf(self.rng.below(1000) as f64 / 1000.0)) as usize, self.rng.range(8, 24))
        } else {
            (t, steps)
        };
        self.cap = t;
        self.uni = match self.rng.below(4) {
            0 => (t as u32 + t as u32 / 4).max(4),
            1 => (t as u32 * 2).max(8),
            2 => (t as u32 * 10).max(30),
            _ => 500_000,
        };
        let n0 = if self.rng.chance(1, 4) { 0 } else { t };
        doing(|| format!("start: {} of {n0} elements below {}", self.name, self.uni));
        label("C10");
        let xs = self.gen(n0);
        let h = self.fresh(&xs)?;
        self.pool.push(h);
        self.verify(0, "C10", "construction")?;
        let base = weights(self.prop);
        let mut w = base;
        let mut left = 0;
        for s in 0..steps {
            if left == 0 {
                left = self.rng.range(5, 40);
                w = base;
                match self.rng.below(4) {
                    0 => w[Op::Insert as usize] *= 8,
                    1 => {
                        w[Op::Remove as usize] *= 4;
                        w[Op::Take as usize] *= 4;
                        w[Op::Pop as usize] *= 3;
                    }
                    2 => {
                        w[Op::Clone as usize] *= 3;
                        w[Op::Remove as usize] *= 3;
                        w[Op::Insert as usize] *= 3;
                    }
                    _ => (),
                }
            }
            left -= 1;
            let o = OPS[self.rng.weighted(&w)];
            self.op(o)?;
            if !self.held.is_empty() && self.rng.chance(1, 3) {
                self.held_op()?;
            }
            self.stats.add("operations", 1);
            let tot: usize = self.pool.iter().map(|h| h.model.len()).sum();
            if tot <= 400 || s % 8 == 7 {
                for i in 0..self.pool.len() {
                    let n = self.pool[i].model.len();
                    if n <= 64 || self.rng.chance(1, n / 64 + 1) {
                        self.verify(i, "C02", &format!("after {o:?} on another set (or the same)"))?;
                    }
                }
            }
            self.live(&format!("after {o:?}"))?;
        }
        for i in 0..self.pool.len() {
            self.verify(i, "C02", "at the end")?;
        }
        label("C05");
        while !self.pool.is_empty() {
            let i = self.rng.below(self.pool.len());
            doing(|| format!("[{i}] final drop"));
            self.pool.swap_remove(i);
            for i in 0..self.pool.len() {
                self.verify(i, "C02", "after dropping another set")?;
            }
            if !self.held.is_empty() && self.rng.chance(1, 2) {
                self.held_op()?;
            }
            self.live("final drops")?;
        }
        while !self.held.is_empty() {
            self.held_op()?;
        }
        let (k, _) = tok::live();
        if k != 0 {
            soft!("C05", "{}: {k} elements leaked", self.name);
        }
        Ok(())
    }
}

type Ok_ = BTreeMap<u32, BTreeSet<u32>>;
fn either(a: &Model, b: &Model) -> Ok_ {
    let mut o: Ok_ = BTreeMap::new();
    for (k, t) in a.iter().chain(b) {
        o.entry(*k).or_default().insert(*t);
    }
    o
}
fn seq<T: KeyT>(s: &dyn DynSet<T>, n: usize) -> Vec<El> {
    let mut it = s.ro(SetIt::Iter);
    let mut v = Vec::with_capacity(n);
    while let Some(x) = it.next() {
        v.push(x);
        if v.len() > n + 3 {
            break;
        }
    }
    v
}
/// the set must hold exactly the keys of ok, each with one of its tags; which one becomes the model
fn adopt<T: KeyT>(name: &str, lab: &'static str, what: &str, h: &mut H<T>, ok: &Ok_) -> R {
    let got = seq(&*h.s, ok.len());
    let good = got.len() == ok.len() && got.iter().zip(ok).all(|(g, (k, ts))| g.0 == *k && ts.contains(&g.1));
    if !good {
        let i = got.iter().zip(ok).position(|(g, (k, ts))| g.0 != *k || !ts.contains(&g.1)).unwrap_or(got.len().min(ok.len()));
        fail!(lab, "{name}: {what}: {} elements, expected {}; at position {i}: {:?}, expected {:?} (element, tags)", got.len(), ok.len(), got.get(i), ok.iter().nth(i));
    }
    if h.s.len() != ok.len() {
        fail!(lab, "{name}: {what}: len() = {}, expected {}", h.s.len(), ok.len());
    }
    h.model = got.into_iter().collect();
    Ok(())
}

fn one<T: KeyT>(prop: &'static str, proto: Box<dyn DynSet<T>>, rng: Rng, idx: u64, deep: bool) -> CaseOut {
    tok::reset();
    let name = proto.name();
    let bnd = Bounds { n: proto.n() };
    let mut e = Eng {
        prop,
        rng,
        pool: vec![],
        proto,
        bnd,
        deep,
        stats: Stats::default(),
        states: vec![],
        next_lin: 0,
        uni: 100,
        cap: 40,
        core: 0,
        name,
        tag: 0,
        held: vec![],
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run(idx)));
    let mut out = CaseOut::default();
    out.viols = match r {
        Ok(Ok(())) => vec![],
        Ok(Err(v)) => vec![v],
        Err(_) => vec![Viol { prop: crate::run::cur_label(), msg: format!("{}: unexpected panic: {}", e.name, crate::run::panic_msg()) }],
    };
    let t = tok::totals();
    e.stats.add("elements_tracked", t.created);
    e.stats.add("element_events", t.uses);
    e.stats.max("max_entries", e.cap as u64);
    out.sig = mix(e.rng.u64() ^ mix(t.created.wrapping_mul(31).wrapping_add(t.uses)));
    out.nontrivial = e.core >= 5;
    out.states = std::mem::take(&mut e.states);
    out.stats = std::mem::take(&mut e.stats);
    if !out.viols.is_empty() {
        std::mem::forget(e);
    }
    out
}

pub fn pick<T: KeyT>(t: usize) -> Box<dyn DynSet<T>> {
    match t {
        0 => Box::new(AvlSet::<T>::new()),
        1 => Box::new(BSet::<T, 1>::new()),
        2 => Box::new(BSet::<T, 2>::new()),
        3 => Box::new(BSet::<T, 3>::new()),
        4 => Box::new(BSet::<T, 5>::new()),
        _ => Box::new(BSet::<T, 8>::new()),
    }
}

fn hard(v: &Viol) -> bool {
    !matches!(v.prop, "C03" | "C04" | "C05")
}

#[cfg(feature = "sets")]
pub fn case(prop: &'static str, seed: u64, idx: u64) -> CaseOut {
    let go = |deep: bool| {
        let mut rng = Rng::derive(seed ^ 0x5e75, idx);
        let t = rng.weighted(&[6, 3, 3, 2, 3, 1]);
        if rng.chance(1, 2) {
            one::<tok::SKey>(prop, pick(t), rng, idx, deep)
        } else {
            one::<tok::BKey>(prop, pick(t), rng, idx, deep)
        }
    };
    let mut out = go(false);
    if prop == "C02" && out.viols.iter().all(|v| v.prop != "C02") && out.viols.iter().any(hard) {
        let o2 = go(true);
        if !o2.viols.iter().any(hard) {
            let m = out.viols.iter().find(|v| hard(v)).unwrap().msg.clone();
            out.viols.push(Viol { prop: "C02", msg: format!("goes wrong only when parts are shared: {m}") });
        }
    }
    out
}
