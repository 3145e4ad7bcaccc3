//! Cost monitors at sizes and clone counts that the history engines do not reach: what clone() costs on large collections, and how many
//! elements are alive when many lightly edited versions of one collection are kept.
use crate::api::*;
use crate::rng::{mix, Rng};
use crate::run::{doing, CaseOut, Stats, Viol};
use crate::tok::{self, KeyT, SKey, SVal, ValT};
use crate::watch::*;
use crate::{counting, fail, maps, sets};
use lazy_clone_collections::Stack;
use std::time::Instant;

const P: &str = "C04";

/// Whatever is being measured: something that can be cloned, read all over, and edited at one place.
trait Subject: Sized {
    fn name(&self) -> String;
    fn dup(&self) -> Self;
    fn size(&self) -> usize;
    /// one point edit; returns what it was and the number of copies of each kind it may make when everything is shared
    fn edit(&mut self, rng: &mut Rng, uni: u32) -> (&'static str, u64);
    /// all read-only operations
    fn read(&self, rng: &mut Rng, uni: u32);
}

struct M(Box<dyn DynMap<SKey, SVal>>);
impl Subject for M {
    fn name(&self) -> String {
        self.0.name()
    }
    fn dup(&self) -> Self {
        M(self.0.clone_box())
    }
    fn size(&self) -> usize {
        self.0.len()
    }
    fn edit(&mut self, rng: &mut Rng, uni: u32) -> (&'static str, u64) {
        let c = self.0.caps();
        let bnd = Bounds { n: c.n };
        let (b, path) = (bnd.copies(self.0.len() + 1), bnd.copies_path(self.0.len() + 1));
        let k = rng.below(uni as usize) as u32;
        let what = match rng.below(if c.full { 7 } else { 3 }) {
            0 => {
                drop(self.0.insert(SKey::mk(k, 1), SVal::mk(7)));
                "insert"
            }
            1 => {
                drop(self.0.remove(k, false));
                "remove"
            }
            2 => {
                if let Some(v) = self.0.get_mut(k, false) {
                    v.set(5)
                }
                "get_mut"
            }
            3 => {
                drop(self.0.pop(false));
                "pop_first"
            }
            4 => {
                drop(self.0.pop(true));
                "pop_last"
            }
            5 => {
                self.0.entry_op(k, None, true, EntryOp::OrInsert, 9);
                "entry().and_modify().or_insert()"
            }
            _ => {
                self.0.entry_op(k, None, false, EntryOp::OrDefault, 9);
                "entry().or_default()"
            }
        };
        let b = match what {
            "insert" | "get_mut" => path,
            "remove" | "pop_first" | "pop_last" => b,
            _ => 2 * path,
        };
        (what, b)
    }
    fn read(&self, rng: &mut Rng, uni: u32) {
        let c = self.0.caps();
        for _ in 0..20 {
            let k = rng.below(uni as usize) as u32;
            self.0.get(k, false);
            if c.full {
                self.0.contains(k, false);
                self.0.get_kv(k, false);
            }
        }
        let mut it = self.0.ro(Ro::Iter);
        while it.next().is_some() {}
        drop(it);
        if c.full {
            for r in [Ro::Keys, Ro::Values] {
                let mut it = self.0.ro(r);
                while it.next_back().is_some() {}
            }
            let mut it = self.0.range((std::ops::Bound::Included(uni / 3), std::ops::Bound::Excluded(uni / 2)), false);
            while it.next().is_some() && it.next_back().is_some() {}
            drop(it);
            self.0.first_last(true);
            self.0.first_last(false);
            self.0.eq_dyn(&*self.0);
            self.0.cmp_dyn(&*self.0);
            self.0.debug();
            if c.hash {
                self.0.hash64();
            }
            if c.avl {
                self.0.for_each(&mut |_, _| ());
            }
        }
    }
}

struct S(Box<dyn DynSet<SKey>>);
impl Subject for S {
    fn name(&self) -> String {
        self.0.name()
    }
    fn dup(&self) -> Self {
        S(self.0.clone_box())
    }
    fn size(&self) -> usize {
        self.0.len()
    }
    fn edit(&mut self, rng: &mut Rng, uni: u32) -> (&'static str, u64) {
        let b = Bounds { n: self.0.n() }.copies(self.0.len() + 1);
        let k = rng.below(uni as usize) as u32;
        match rng.below(6) {
            0 => {
                self.0.insert(SKey::mk(k, 1));
                ("insert", Bounds { n: self.0.n() }.copies_path(self.0.len() + 1))
            }
            1 => {
                self.0.remove(k, false);
                ("remove", b)
            }
            2 => {
                drop(self.0.take(k, false));
                ("take", 2 * b)
            }
            3 => {
                drop(self.0.replace(SKey::mk(k, 2)));
                ("replace", 2 * b)
            }
            4 => {
                drop(self.0.pop(false));
                ("pop_first", b)
            }
            _ => {
                drop(self.0.pop(true));
                ("pop_last", b)
            }
        }
    }
    fn read(&self, rng: &mut Rng, uni: u32) {
        for _ in 0..20 {
            let k = rng.below(uni as usize) as u32;
            self.0.get(k, false);
            self.0.contains(k, false);
        }
        let mut it = self.0.ro(SetIt::Iter);
        while it.next().is_some() {}
        drop(it);
        let mut it = self.0.range((std::ops::Bound::Included(uni / 3), std::ops::Bound::Excluded(uni / 2)), false);
        while it.next().is_some() {}
        drop(it);
        for op in [Bin::Union, Bin::Inter, Bin::Diff, Bin::SymDiff] {
            let mut it = self.0.lazy(op, &*self.0);
            while it.next().is_some() {}
        }
        self.0.relations(&*self.0);
        self.0.first_last(true);
        self.0.first_last(false);
        self.0.eq_dyn(&*self.0);
        self.0.cmp_dyn(&*self.0);
        self.0.hash64();
    }
}

struct K(Stack<SVal>);
impl Subject for K {
    fn name(&self) -> String {
        "Stack".into()
    }
    fn dup(&self) -> Self {
        K(self.0.clone())
    }
    fn size(&self) -> usize {
        self.0.len()
    }
    fn edit(&mut self, rng: &mut Rng, _: u32) -> (&'static str, u64) {
        let n = self.0.len();
        match rng.below(5) {
            0 => {
                self.0.push(SVal::mk(3));
                ("push", 0)
            }
            1 => {
                drop(self.0.pop());
                ("pop", 1)
            }
            2 => {
                if let Some(x) = self.0.top_mut() {
                    x.set(8)
                }
                ("top_mut", 1)
            }
            3 if n > 0 => {
                let d = rng.below(n.min(30)) + 1;
                drop(self.0.remove(n - d));
                ("remove near the top", d as u64)
            }
            _ if n > 0 => {
                let d = rng.below(n.min(30));
                drop(self.0.split_off(n - d));
                ("split_off near the top", d as u64)
            }
            _ => ("nothing", 0),
        }
    }
    fn read(&self, _: &mut Rng, _: u32) {
        self.0.iter().for_each(|x| {
            x.get();
        });
        let x = SVal::mk(u64::MAX);
        self.0.contains(&x);
        self.0.top();
        let _ = self.0 == self.0;
        let _ = self.0.cmp(&self.0);
        let _ = self.0.partial_cmp(&self.0);
        let _ = format!("{:?}", self.0);
    }
}

fn copies() -> (u64, u64) {
    (tok::kclones(), tok::vclones())
}

fn big_clone<X: Subject>(x: X, rng: &mut Rng, uni: u32, st: &mut Stats) -> R {
    let n = x.size();
    let c0 = copies();
    let mut best = u128::MAX;
    let mut keep = vec![];
    let (a0, b0, cm0, l0) = (counting::allocs(), counting::bytes(), tok::cmps(), tok::live());
    let trials = 40u64;
    keep.reserve(trials as usize);
    let a0 = a0 + 1;
    for _ in 0..trials {
        let t = Instant::now();
        let y = x.dup();
        best = best.min(t.elapsed().as_nanos());
        keep.push(y);
    }
    let (a, b) = (counting::allocs().saturating_sub(a0), counting::bytes() - b0 - (trials * std::mem::size_of::<X>() as u64));
    if copies() != c0 || tok::live() != l0 {
        fail!(P, "{}: clone() of {n} elements copied elements", x.name());
    }
    if tok::cmps() != cm0 {
        fail!(P, "{}: clone() of {n} elements compared elements", x.name());
    }
    if a > 5 * trials || b > 400 * trials {
        fail!(P, "{}: clone() of {n} elements made {a} allocations, {b} bytes, in {trials} clones", x.name());
    }
    st.max("max_clone_ns_best_of_40", best as u64);
    if best > 100_000 && n >= 20_000 {
        fail!(P, "{}: clone() of {n} elements took at least {best} ns in each of {trials} trials", x.name());
    }
    x.read(rng, uni);
    for y in keep.iter().take(2) {
        y.read(rng, uni);
    }
    if copies() != c0 {
        fail!(P, "{}: read-only operations on {n} elements copied {:?} (keys, values)", x.name(), (copies().0 - c0.0, copies().1 - c0.1));
    }
    st.add("clones", trials);
    // back to one owner: edits copy nothing
    drop(keep);
    let mut x = x;
    for _ in 0..20 {
        let c0 = copies();
        let (what, _) = x.edit(rng, uni);
        let own = (what.starts_with("entry")) as u64;
        if copies().0 > c0.0 + own || copies().1 != c0.1 {
            fail!(P, "{}: {what} on {n} elements copied {:?} (keys, values) though all clones are gone", x.name(), (copies().0 - c0.0, copies().1 - c0.1));
        }
        st.add("edits", 1);
    }
    Ok(())
}

fn versions<X: Subject>(x: X, rng: &mut Rng, uni: u32, st: &mut Stats) -> R {
    let n = x.size();
    let m = rng.range(60, 200);
    let chain = rng.chance(1, 2);
    let edits = rng.range(1, 3);
    doing(|| format!("{}: {m} clones of {n} elements, {edits} edits each, chain={chain}", x.name()));
    let name = x.name();
    let mut vs = vec![x];
    let mut allowed = n as u64;
    for _ in 0..m {
        let mut y = if chain { vs.last().unwrap().dup() } else { vs[0].dup() };
        for _ in 0..edits {
            let c0 = copies();
            let (what, b) = y.edit(rng, uni);
            let c = (copies().0 - c0.0, copies().1 - c0.1);
            if c.0 > b + 2 || c.1 > b {
                fail!(P, "{name}: {what} on a shared collection of {} elements copied {c:?} (keys, values; at most {b} allowed)", y.size());
            }
            allowed += b + 1;
            st.add("edits", 1);
        }
        vs.push(y);
    }
    let (k, v) = tok::live();
    let sum: usize = vs.iter().map(|x| x.size()).sum();
    st.max("max_versions_kept", vs.len() as u64);
    st.max("max_sum_of_sizes", sum as u64);
    st.add("live_elements", k.max(v) as u64);
    st.add("elements_if_copied", sum as u64);
    if k as u64 > allowed || v as u64 > allowed {
        fail!(P, "{name}: {k} keys and {v} values alive in {} versions of {n} elements (sum of sizes {sum}, at most {allowed} expected)", vs.len());
    }
    // versions are dropped in any order; the survivors' elements stay, the others' go
    rng.shuffle(&mut vs);
    let last = vs.pop().unwrap();
    drop(vs);
    let (k, v) = tok::live();
    let n = last.size();
    if k.max(v) != n || (k != n && k != 0) {
        fail!("C05", "{name}: {k} keys and {v} values alive in the last version of {n} elements");
    }
    Ok(())
}

pub fn case(_prop: &'static str, seed: u64, idx: u64) -> CaseOut {
    tok::reset();
    let mut rng = Rng::derive(seed ^ 0xc057, idx);
    let mut st = Stats::default();
    let n = match idx {
        0..=15 => 100_000,
        16..=31 => 20_000,
        _ => *rng.pick(&[0usize, 1, 2, 30, 300, 1000, 3000, 8000]),
    };
    let uni = (n as u32 * 2).max(10).min(tok::MAX_KEY);
    let kind = if idx < 32 { (idx % 16) as usize } else { rng.below(16) };
    let big = idx < 32 || rng.chance(1, 3);
    let mut keys: Vec<u32> = (0..uni).collect();
    if kind % 2 == 0 || idx < 16 {
        rng.shuffle(&mut keys);
    }
    keys.truncate(n);
    doing(|| format!("kind {kind}, {n} elements, {}", if big { "large clone" } else { "many versions" }));
    macro_rules! go {
        ($x:expr) => {{
            let x = $x;
            let e = if big { big_clone(x, &mut rng, uni, &mut st) } else { versions(x, &mut rng, uni, &mut st) };
            e
        }};
    }
    let r = match kind {
        0..=6 => {
            let kv = keys.iter().map(|k| (SKey::mk(*k, 0), SVal::mk(*k as u64))).collect();
            go!(M(maps::pick::<SKey, SVal>(kind).collect_new(kv)))
        }
        7..=12 => go!(S(sets::pick::<SKey>(kind - 7).collect_new(keys.iter().map(|k| SKey::mk(*k, 0)).collect()))),
        _ => go!(K(keys.iter().map(|k| SVal::mk(*k as u64)).collect::<Stack<SVal>>())),
    };
    let mut out = CaseOut::default();
    if let Err(v) = r {
        out.viols.push(Viol { prop: v.prop, msg: v.msg });
    } else {
        let l = tok::live();
        if l != (0, 0) {
            out.viols.push(Viol { prop: "C05", msg: format!("{} keys and {} values leaked", l.0, l.1) });
        }
    }
    st.add("elements_tracked", tok::totals().created);
    out.sig = mix(rng.u64() ^ idx);
    out.nontrivial = n > 1;
    out.states = vec![mix(kind as u64 * 100_000_007 + n as u64 * 2 + big as u64)];
    out.stats = st;
    out
}
