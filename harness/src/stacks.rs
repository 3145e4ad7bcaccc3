//! Model-based workload over a pool of stacks that share tails.
use crate::api::*;
use crate::rng::{mix, Rng};
use crate::run::{doing, label, CaseOut, Stats, Viol};
use crate::tok::{self, ValT};
use crate::watch::*;
use crate::{counting, fail, soft};
use lazy_clone_collections::Stack;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct H<T: ValT> {
    pub s: Stack<T>,
    /// bottom first
    pub model: Vec<u64>,
    pub lin: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Op {
    Push,
    Pop,
    TopMut,
    Read,
    Remove,
    Split,
    Clear,
    Extend,
    Iter,
    IterMut,
    Own,
    Clone,
    CloneFrom,
    DropOne,
    Cmp,
    Fresh,
    OutOfRange,
    NOPS,
}
use Op::*;
const OPS: [Op; NOPS as usize] =
    [Push, Pop, TopMut, Read, Remove, Split, Clear, Extend, Iter, IterMut, Own, Clone, CloneFrom, DropOne, Cmp, Fresh, OutOfRange];

fn weights(prop: &str) -> [u32; NOPS as usize] {
    //          psh pop tpm rd rem spl clr ext it itm own cln clf drp cmp fre oor
    let mut w = [14, 10, 5, 4, 7, 4, 1, 4, 3, 4, 3, 8, 1, 4, 3, 1, 1];
    let mut up = |ops: &[Op], f: u32| {
        for o in ops {
            w[*o as usize] *= f
        }
    };
    match prop {
        "C02" => up(&[Clone, CloneFrom, DropOne, Remove, Split, IterMut, TopMut, Own], 3),
        "C05" => up(&[Own, Split, Clear, Remove, IterMut, DropOne, Clone], 3),
        "C06" => up(&[Iter, IterMut, Own], 8),
        "C17" => up(&[Cmp], 15),
        _ => (),
    }
    w
}

pub struct Eng<T: ValT> {
    prop: &'static str,
    rng: Rng,
    pool: Vec<H<T>>,
    deep: bool,
    stats: Stats,
    states: Vec<u64>,
    next_lin: u32,
    cap: usize,
    vals: usize,
    core: u64,
    held: Vec<Held<T, u64>>,
    _p: std::marker::PhantomData<T>,
}

fn contents<T: ValT>(s: &Stack<T>, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = s.iter().take(n + 3).map(|x| x.get()).collect();
    v.reverse();
    v
}
fn diff(got: &[u64], want: &[u64]) -> Option<String> {
    if got == want {
        return None;
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Some(format!("{} elements, expected {}; at index {i}: {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i)))
}

impl<T: ValT> Eng<T> {
    fn lin(&mut self) -> Vec<u32> {
        self.next_lin += 1;
        vec![self.next_lin]
    }
    fn val(&mut self) -> u64 {
        self.rng.below(self.vals) as u64
    }
    fn shared(&self, i: usize) -> bool {
        (0..self.pool.len()).any(|j| j != i && self.pool[j].lin.iter().any(|x| self.pool[i].lin.contains(x))) || self.held.iter().any(|h| h.lin.iter().any(|x| self.pool[i].lin.contains(x)))
    }
    fn any_shared(&self) -> bool {
        !self.held.is_empty() || (0..self.pool.len()).any(|i| self.shared(i))
    }
    /// steps or drops a consuming iterator that was kept
    fn held_op(&mut self) -> R {
        let lab = it_label(self.prop);
        label(lab);
        let j = self.rng.below(self.held.len());
        if self.rng.chance(1, 8) {
            doing(|| format!("held iterator {j}: dropped"));
            self.held.swap_remove(j);
            return Ok(());
        }
        doing(|| format!("held iterator {j}: some steps"));
        let done = self.held[j].step(lab, false, &mut self.rng, |x, w| if x.get() == *w { Ok(()) } else { Err(format!("{}, expected {w}", x.get())) })?;
        self.stats.add("steps_of_held_iterators", 1);
        if done {
            self.held.swap_remove(j);
        }
        Ok(())
    }
    fn push(&mut self, h: H<T>) -> usize {
        if self.pool.len() >= 6 {
            let j = self.rng.below(self.pool.len());
            self.pool[j] = h;
            j
        } else {
            self.pool.push(h);
            self.pool.len() - 1
        }
    }
    fn fresh(&mut self, n: usize) -> H<T> {
        let model: Vec<u64> = (0..n).map(|_| self.val()).collect();
        let it = Hinted::new(model.iter(), self.rng.below(10)).map(|v| T::mk(*v));
        let s: Stack<T> = match self.rng.below(4) {
            0 => it.collect(),
            1 => Stack::from(it.collect::<Vec<_>>()),
            2 => {
                let mut s = Stack::default();
                s.extend(it);
                s
            }
            _ => {
                let mut s = Stack::new();
                it.for_each(|x| s.push(x));
                s
            }
        };
        let lin = self.lin();
        H { s, model, lin }
    }
    fn clone_handle(&mut self, i: usize) -> R<H<T>> {
        let model = self.pool[i].model.clone();
        if self.deep {
            let s = model.iter().map(|v| T::mk(*v)).collect();
            let lin = self.lin();
            return Ok(H { s, model, lin });
        }
        label("C02");
        let (v0, a0, b0) = (tok::vclones(), counting::allocs(), counting::bytes());
        let s = self.pool[i].s.clone();
        let (a, b) = (counting::allocs() - a0, counting::bytes() - b0);
        if tok::vclones() != v0 {
            soft!("C04", "clone() of a stack with {} elements copied {} elements", model.len(), tok::vclones() - v0);
        }
        if a > 5 || b > 300 {
            soft!("C04", "clone() of a stack with {} elements made {a} allocations ({b} bytes)", model.len());
        }
        self.stats.add("clones", 1);
        Ok(H { s, model, lin: self.pool[i].lin.clone() })
    }
    fn verify_h(&self, h: &H<T>, lab: &'static str, what: &str) -> R {
        label(lab);
        let n = h.model.len();
        if h.s.len() != n || h.s.is_empty() != (n == 0) {
            fail!(lab, "stack: {what}: len() = {}, is_empty() = {}, expected {n} elements", h.s.len(), h.s.is_empty());
        }
        if let Some(d) = diff(&contents(&h.s, n), &h.model) {
            fail!(lab, "stack: {what}: contents: {d}");
        }
        if h.s.top().map(|x| x.get()) != h.model.last().copied() {
            fail!(lab, "stack: {what}: top() = {:?}, expected {:?}", h.s.top().map(|x| x.get()), h.model.last());
        }
        Ok(())
    }
    fn verify(&mut self, i: usize, lab: &'static str, what: &str) -> R {
        self.verify_h(&self.pool[i], lab, what)?;
        self.stats.add("elements_compared", self.pool[i].model.len() as u64);
        Ok(())
    }
    fn live(&mut self, what: &str) -> R {
        let e = tok::take_errs();
        if let Some(e) = e.first() {
            soft!("C05", "stack: {what}: {e}");
        }
        let (_, v) = tok::live();
        let tot: usize = self.pool.iter().map(|h| h.model.len()).sum::<usize>() + self.held.iter().map(|h| h.len()).sum::<usize>();
        let max = self.pool.iter().map(|h| h.model.len()).max().unwrap_or(0);
        if !self.any_shared() {
            if v != tot {
                soft!("C05", "stack: {what}: {v} live elements in unshared stacks of {tot} elements in all");
            }
            self.stats.add("exact_live_counts", 1);
        } else if v > tot || v < max {
            soft!("C05", "stack: {what}: {v} live elements, the stacks hold {tot} in all, the largest {max}");
        }
        Ok(())
    }
    fn copied(&self, what: &str, v0: u64, sh: bool, allowed: usize, n: usize) -> R {
        let c = tok::vclones() - v0;
        let allowed = if sh { allowed as u64 } else { 0 };
        if c > allowed {
            soft!("C04", "stack: {what} on a{} stack of {n} elements copied {c} (at most {allowed} allowed)", if sh { " shared" } else { "n unshared" });
        }
        Ok(())
    }

    fn op(&mut self, op: Op) -> R {
        let lab = "C11";
        let i = self.rng.below(self.pool.len());
        let n = self.pool[i].model.len();
        let sh = self.shared(i);
        self.states.push(mix(op as u64 * 1000 + (n.min(200) as u64) * 4 + sh as u64 * 2));
        self.stats.add(if sh { "operations_on_shared" } else { "operations_on_unshared" }, 1);
        label(lab);
        let v0 = tok::vclones();
        let mut touched = vec![i];
        match op {
            Push => {
                let v = self.val();
                doing(|| format!("[{i}] push({v})"));
                if n < 4 * self.cap + 20 {
                    let c0 = tok::vclones();
                    let x = T::mk(v);
                    self.pool[i].s.push(x);
                    self.pool[i].model.push(v);
                    self.copied("push", c0, sh, 0, n)?;
                }
                self.core += 1;
            }
            Pop => {
                doing(|| format!("[{i}] pop"));
                let h = &mut self.pool[i];
                let (got, want) = (h.s.pop().map(|x| x.get()), h.model.pop());
                if got != want {
                    fail!(lab, "stack: pop() = {got:?}, expected {want:?}");
                }
                self.copied("pop", v0, sh, 1, n)?;
                self.core += 1;
            }
            TopMut => {
                let v = self.val();
                let set = self.rng.chance(3, 4);
                doing(|| format!("[{i}] top_mut set={set}"));
                let h = &mut self.pool[i];
                let got = h.s.top_mut().map(|x| {
                    let o = x.get();
                    if set {
                        x.set(v)
                    }
                    o
                });
                let want = h.model.last().copied();
                if got != want {
                    fail!(lab, "stack: top_mut() = {got:?}, expected {want:?}");
                }
                if set {
                    if let Some(x) = h.model.last_mut() {
                        *x = v
                    }
                }
                self.copied("top_mut", v0, sh, 1, n)?;
            }
            Read => {
                let v = self.val();
                doing(|| format!("[{i}] contains({v}), top, len"));
                let h = &self.pool[i];
                let x = T::mk(v);
                let (got, want) = (h.s.contains(&x), h.model.contains(&v));
                if got != want {
                    fail!(lab, "stack: contains({v}) = {got}, expected {want}");
                }
                drop(x);
                self.verify(i, lab, "read")?;
                self.copied("reading", v0, sh, 0, n)?;
            }
            Remove => {
                if n == 0 {
                    return Ok(());
                }
                let at = match self.rng.below(4) {
                    0 => n - 1,
                    1 => 0,
                    2 => n - 1 - self.rng.below(n.min(6)),
                    _ => self.rng.below(n),
                };
                doing(|| format!("[{i}] remove({at}) of {n}"));
                let h = &mut self.pool[i];
                let (got, want) = (h.s.remove(at).get(), h.model.remove(at));
                if got != want {
                    fail!(lab, "stack: remove({at}) of {n} = {got}, expected {want}");
                }
                self.copied("remove", v0, sh, n - at, n)?;
                self.core += 1;
            }
            Split => {
                let at = match self.rng.below(6) {
                    0 => 0,
                    1 => n,
                    _ => self.rng.below(n + 1),
                };
                doing(|| format!("[{i}] split_off({at}) of {n}"));
                let h = &mut self.pool[i];
                let s = h.s.split_off(at);
                let m = h.model.split_off(at);
                self.copied("split_off", v0, sh, n - at, n)?;
                let o = H { s, model: m, lin: self.pool[i].lin.clone() };
                self.verify_h(&o, lab, &format!("upper part after split_off({at}) of {n}"))?;
                self.verify(i, lab, &format!("lower part after split_off({at}) of {n}"))?;
                let o = if sh {
                    o
                } else {
                    // neither part can share with anything now
                    let lin = self.lin();
                    H { lin, ..o }
                };
                match self.rng.below(4) {
                    0 => drop(o),
                    1 => {
                        let old = std::mem::replace(&mut self.pool[i], o);
                        drop(old)
                    }
                    _ => touched.push(self.push(o)),
                }
                self.core += 1;
            }
            Clear => {
                doing(|| format!("[{i}] clear"));
                self.pool[i].s.clear();
                self.pool[i].model.clear();
                self.pool[i].lin = self.lin();
                self.copied("clear", v0, sh, 0, n)?;
            }
            Extend => {
                let k = self.rng.below(6);
                let vs: Vec<u64> = (0..k).map(|_| self.val()).collect();
                doing(|| format!("[{i}] extend by {k}"));
                let how = self.rng.below(10);
                let h = &mut self.pool[i];
                h.s.extend(Hinted::new(vs.iter(), how).map(|v| T::mk(*v)));
                h.model.extend(vs);
                self.copied("extend", v0, sh, 0, n)?;
            }
            Iter => {
                doing(|| format!("[{i}] iter"));
                let d = Drive { abandon: self.rng.chance(1, 4), steps_back: false, dir: 1, exact: false };
                let h = &self.pool[i];
                let m = &h.model;
                let it: DynIt<u64> = Box::new(Fw(h.s.iter(), |x: &T| x.get()));
                let v = drive(it_label(self.prop), "stack: iter", it, n, &d, &mut self.rng, |x, ix| {
                    if x != m[n - 1 - ix] {
                        return Err(format!("{x}, expected {}", m[n - 1 - ix]));
                    }
                    Ok(())
                })?;
                self.stats.add("iterator_steps", v.steps);
                self.copied("iter", v0, sh, 0, n)?;
            }
            IterMut => {
                doing(|| format!("[{i}] iter_mut"));
                let d = Drive { abandon: self.rng.chance(1, 2), steps_back: false, dir: 1, exact: false };
                let mut new = self.pool[i].model.clone();
                let salt = self.rng.u64();
                let nv = self.vals as u64;
                let h = &mut self.pool[i];
                let m = &h.model;
                let it: DynIt<&mut T> = Box::new(Fw(h.s.iter_mut(), |x| x));
                let mut top = 0;
                let v = drive(it_label(self.prop), "stack: iter_mut", it, n, &d, &mut self.rng, |x, ix| {
                    let j = n - 1 - ix;
                    top = top.max(ix + 1);
                    if x.get() != m[j] {
                        return Err(format!("{}, expected {}", x.get(), m[j]));
                    }
                    if mix(salt ^ ix as u64) % 3 > 0 {
                        new[j] = mix(salt ^ ix as u64 ^ 77) % nv;
                        x.set(new[j]);
                    }
                    Ok(())
                })?;
                self.pool[i].model = new;
                self.stats.add("iterator_steps", v.steps);
                // an adaptor such as count() or last() walks over everything
                let walked = if v.drained { n } else { v.front.max(top) + 1 };
                self.copied("iter_mut", v0, sh, walked, n)?;
                self.verify(i, it_label(self.prop), "after iter_mut")?;
            }
            Own => {
                let on_clone = self.rng.chance(1, 2);
                doing(|| format!("[{i}] into_iter, on a clone: {on_clone}"));
                let h = if on_clone {
                    self.clone_handle(i)?
                } else {
                    let lin = self.lin();
                    std::mem::replace(&mut self.pool[i], H { s: Stack::new(), model: vec![], lin })
                };
                label(it_label(self.prop));
                let v0 = tok::vclones();
                let d = Drive { abandon: self.rng.chance(1, 2), steps_back: false, dir: 1, exact: false };
                let m = h.model;
                if self.held.len() < 2 && n > 0 && self.rng.chance(1, 3) {
                    let want = m.into_iter().rev().collect();
                    self.held.push(Held::new(Box::new(Fw(h.s.into_iter(), |x| x)), want, "stack: into_iter".into(), h.lin));
                    return self.held_op();
                }
                let mut kept = vec![];
                let keep = self.rng.chance(1, 2);
                let it: DynIt<T> = Box::new(Fw(h.s.into_iter(), |x| x));
                let v = drive(it_label(self.prop), "stack: into_iter", it, n, &d, &mut self.rng, |x, ix| {
                    if x.get() != m[n - 1 - ix] {
                        return Err(format!("{}, expected {}", x.get(), m[n - 1 - ix]));
                    }
                    if keep {
                        kept.push(x)
                    }
                    Ok(())
                })?;
                self.stats.add("iterator_steps", v.steps);
                self.copied("into_iter", v0, sh || (on_clone && !self.deep), n, n)?;
                drop(kept);
            }
            Clone => {
                doing(|| format!("[{i}] clone"));
                let h = self.clone_handle(i)?;
                self.verify_h(&h, "C02", "fresh clone")?;
                if h.s != self.pool[i].s {
                    fail!("C02", "stack: a fresh clone is not equal to its original");
                }
                touched.push(self.push(h));
            }
            CloneFrom => {
                let j = self.rng.below(self.pool.len());
                if i == j || self.deep {
                    return Ok(());
                }
                doing(|| format!("[{i}] clone_from [{j}]"));
                label("C02");
                let (model, lin) = (self.pool[j].model.clone(), self.pool[j].lin.clone());
                let (a, b) = crate::maps::two(&mut self.pool, i, j);
                a.s.clone_from(&b.s);
                a.model = model;
                a.lin = lin;
                touched.push(j);
            }
            DropOne => {
                if self.pool.len() > 1 {
                    doing(|| format!("[{i}] drop"));
                    self.pool.swap_remove(i);
                    touched = vec![];
                    self.copied("drop", v0, sh, 0, n)?;
                }
            }
            Cmp => self.cmp(i)?,
            Fresh => {
                let k = self.rng.below(self.cap + 2);
                doing(|| format!("new stack of {k}"));
                let h = self.fresh(k);
                touched.push(self.push(h));
            }
            OutOfRange => {
                let over = *self.rng.pick(&[0usize, 1, 7, usize::MAX - 500]);
                let at = n.saturating_add(over);
                let remove = self.rng.chance(1, 2);
                let at = if remove { at } else { at.saturating_add(1) };
                doing(|| format!("[{i}] {}({at}) of {n}", if remove { "remove" } else { "split_off" }));
                let h = &mut self.pool[i];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if remove {
                        let _ = h.s.remove(at);
                    } else {
                        let _ = h.s.split_off(at);
                    }
                }));
                if r.is_ok() {
                    fail!(lab, "stack: {}({at}) of {n} elements did not panic", if remove { "remove" } else { "split_off" });
                }
                self.stats.add("expected_panics", 1);
                self.verify(i, lab, "after a refused operation")?;
            }
            NOPS => unreachable!(),
        }
        for t in touched {
            if t < self.pool.len() && self.pool[t].model.len() <= 400 {
                self.verify(t, lab, &format!("after {op:?}"))?;
            }
        }
        Ok(())
    }

    fn cmp(&mut self, i: usize) -> R {
        let lab = if self.prop == "C11" { "C11" } else { "C17" };
        label(lab);
        let n = self.pool[i].model.len();
        let h2 = match self.rng.below(4) {
            0 => self.clone_handle(i)?,
            1 => {
                let model = self.pool[i].model.clone();
                let lin = self.lin();
                H { s: model.iter().map(|v| T::mk(*v)).collect(), model, lin }
            }
            2 => {
                // equal up to one place
                let mut model = self.pool[i].model.clone();
                match self.rng.below(4) {
                    0 if n > 0 => {
                        let j = self.rng.below(n);
                        model[j] = self.val()
                    }
                    1 if n > 0 => {
                        let j = self.rng.below(n);
                        model.remove(j);
                    }
                    2 if n > 0 => {
                        model.remove(0);
                    }
                    _ => {
                        let v = self.val();
                        model.insert(0, v)
                    }
                }
                let lin = self.lin();
                H { s: model.iter().map(|v| T::mk(*v)).collect(), model, lin }
            }
            _ => {
                let k = self.rng.below(self.cap + 1);
                self.fresh(k)
            }
        };
        label(lab);
        let (x, y) = (&self.pool[i], &h2);
        doing(|| format!("[{i}] compared with another of {} elements", y.model.len()));
        let v0 = tok::vclones();
        let mx: Vec<T> = x.model.iter().rev().map(|v| T::mk(*v)).collect();
        let my: Vec<T> = y.model.iter().rev().map(|v| T::mk(*v)).collect();
        for (a, b, ma, mb) in [(x, y, &mx, &my), (y, x, &my, &mx)] {
            #[allow(clippy::nonminimal_bool)]
            let got = (a.s == b.s, a.s != b.s, a.s.cmp(&b.s), a.s.partial_cmp(&b.s), a.s < b.s, a.s <= b.s, a.s > b.s, a.s >= b.s);
            let want = (ma == mb, ma != mb, ma.cmp(mb), ma.partial_cmp(mb), ma < mb, ma <= mb, ma > mb, ma >= mb);
            if got != want {
                fail!(lab, "stack: (==, !=, cmp, partial_cmp, <, <=, >, >=) of {} and {} elements gave {got:?}, expected {want:?}", a.model.len(), b.model.len());
            }
        }
        let txt = format!("{:?}", x.s);
        let want: Vec<u64> = x.model.iter().rev().copied().collect();
        let list = format!("{want:?}");
        if !txt.contains(&list) {
            fail!("C17", "stack: debug text {txt:?} does not list {list}");
        }
        let y_txt = format!("{:?}", y.s);
        if (txt == y_txt) != (x.model == y.model) {
            fail!("C17", "stack: debug texts {txt:?} and {y_txt:?}, contents equal: {}", x.model == y.model);
        }
        self.copied("comparing and printing", v0, true, 0, n)?;
        self.stats.add("comparisons_checked", 16);
        drop((mx, my));
        self.verify(i, "C02", "after comparison")?;
        Ok(())
    }

    fn run(&mut self, idx: u64) -> R {
        let (t, steps) = match self.rng.below(100) {
            0..=29 => (self.rng.range(0, 8), self.rng.range(10, 60)),
            30..=79 => (self.rng.range(4, 40), self.rng.range(20, 150)),
            80..=95 => (self.rng.range(30, 300), self.rng.range(30, 200)),
            _ => (self.rng.range(300, 3000), self.rng.range(20, 100)),
        };
        let (t, steps) = if idx == 5 { (100_000, 15) } else { (t, steps) };
        self.cap = t;
        self.vals = *self.rng.pick(&[3, 20, 1_000_000]);
        let n0 = if self.rng.chance(1, 4) { 0 } else { t };
        doing(|| format!("start: stack of {n0} elements"));
        label("C11");
        let h = self.fresh(n0);
        self.pool.push(h);
        self.verify(0, "C11", "construction")?;
        let base = weights(self.prop);
        let mut w = base;
        let mut left = 0;
        for s in 0..steps {
            if left == 0 {
                left = self.rng.range(5, 40);
                w = base;
                match self.rng.below(4) {
                    0 => w[Push as usize] *= 6,
                    1 => w[Pop as usize] *= 4,
                    2 => w[Clone as usize] *= 3,
                    _ => (),
                }
            }
            left -= 1;
            let o = OPS[self.rng.weighted(&w)];
            self.op(o)?;
            if !self.held.is_empty() && self.rng.chance(1, 3) {
                self.held_op()?;
            }
            self.stats.add("operations", 1);
            let tot: usize = self.pool.iter().map(|h| h.model.len()).sum();
            if tot <= 600 || s % 8 == 7 {
                for i in 0..self.pool.len() {
                    self.verify(i, "C02", &format!("after {o:?} on another stack (or the same)"))?;
                }
            }
            self.live(&format!("after {o:?}"))?;
        }
        for i in 0..self.pool.len() {
            self.verify(i, "C02", "at the end")?;
        }
        while !self.pool.is_empty() {
            let i = self.rng.below(self.pool.len());
            doing(|| format!("[{i}] final drop"));
            label("C05");
            self.pool.swap_remove(i);
            for i in 0..self.pool.len() {
                self.verify(i, "C02", "after dropping another stack")?;
            }
            if !self.held.is_empty() && self.rng.chance(1, 2) {
                self.held_op()?;
            }
            self.live("final drops")?;
        }
        while !self.held.is_empty() {
            self.held_op()?;
        }
        let (_, v) = tok::live();
        if v != 0 {
            soft!("C05", "stack: {v} elements leaked");
        }
        Ok(())
    }
}
fn it_label(prop: &'static str) -> &'static str {
    if prop == "C11" {
        "C11"
    } else {
        "C06"
    }
}

fn one<T: ValT>(prop: &'static str, rng: Rng, idx: u64, deep: bool) -> CaseOut {
    tok::reset();
    let mut e = Eng::<T> {
        prop,
        rng,
        pool: vec![],
        deep,
        stats: Stats::default(),
        states: vec![],
        next_lin: 0,
        cap: 10,
        vals: 10,
        core: 0,
        held: vec![],
        _p: Default::default(),
    };
    let r = catch_unwind(AssertUnwindSafe(|| e.run(idx)));
    let mut out = CaseOut::default();
    out.viols = match r {
        Ok(Ok(())) => vec![],
        Ok(Err(v)) => vec![v],
        Err(_) => vec![Viol { prop: crate::run::cur_label(), msg: format!("stack: unexpected panic: {}", crate::run::panic_msg()) }],
    };
    let t = tok::totals();
    e.stats.add("elements_tracked", t.created);
    e.stats.add("element_events", t.uses);
    e.stats.max("max_entries", e.cap as u64);
    out.sig = mix(e.rng.u64() ^ mix(t.created.wrapping_mul(31).wrapping_add(t.uses)));
    out.nontrivial = e.core >= 5;
    out.states = std::mem::take(&mut e.states);
    out.stats = std::mem::take(&mut e.stats);
    if !out.viols.is_empty() {
        std::mem::forget(e);
    }
    out
}

fn hard(v: &Viol) -> bool {
    !matches!(v.prop, "C04" | "C05")
}

pub fn case(prop: &'static str, seed: u64, idx: u64) -> CaseOut {
    let go = |deep: bool| {
        let mut rng = Rng::derive(seed ^ 0x57ac, idx);
        if rng.chance(1, 2) {
            one::<tok::SVal>(prop, rng, idx, deep)
        } else {
            one::<tok::BVal>(prop, rng, idx, deep)
        }
    };
    let mut out = go(false);
    if prop == "C02" && out.viols.iter().all(|v| v.prop != "C02") && out.viols.iter().any(hard) {
        let o2 = go(true);
        if !o2.viols.iter().any(hard) {
            let m = out.viols.iter().find(|v| hard(v)).unwrap().msg.clone();
            out.viols.push(Viol { prop: "C02", msg: format!("goes wrong only when parts are shared: {m}") });
        }
    }
    out
}
