//! Instrumented element types.
//!
//! Every instance has an identity in a per-thread registry.  Comparing, copying, dropping or reading an instance is an event: it is
//! counted, the instance's registry state is checked (live, not garbage), and an armed fuse may make it panic.
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Cmp = 1,
    Clone = 2,
    Drop = 4,
    Call = 8,
}

/// Payload of injected panics.
pub struct Injected;

#[derive(Default)]
struct Reg {
    // 0 = never created, 1 = live key, 2 = live value, 3 = dropped
    state: Vec<u8>,
    // expected packed key of live keys (detects garbage bits)
    bits: Vec<u32>,
    live_keys: usize,
    live_vals: usize,
    created: u64,
    dropped: u64,
    uses: u64,
    errs: Vec<String>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    static CMPS: Cell<u64> = const { Cell::new(0) };
    static KCLONES: Cell<u64> = const { Cell::new(0) };
    static VCLONES: Cell<u64> = const { Cell::new(0) };
    static CMP_CAP: Cell<u64> = const { Cell::new(u64::MAX) };
    static FUSE: Cell<u64> = const { Cell::new(0) };
    static FUSE_MASK: Cell<u8> = const { Cell::new(0) };
    static FUSE_FIRED: Cell<u8> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
}

impl Reg {
    fn err(&mut self, s: String) {
        if self.errs.len() < 20 {
            self.errs.push(s);
        }
    }
    fn create(&mut self, kind: u8, bits: u32) -> u32 {
        let id = self.state.len() as u32;
        self.state.push(kind);
        self.bits.push(bits);
        self.created += 1;
        if kind == 1 {
            self.live_keys += 1
        } else {
            self.live_vals += 1
        }
        id
    }
    fn check(&mut self, what: &str, id: u32, kind: u8, bits: u32) -> bool {
        self.uses += 1;
        let kn = if kind == 1 { "key" } else { "value" };
        match self.state.get(id as usize) {
            Some(&s) if s == kind => {
                if kind == 1 && self.bits[id as usize] != bits {
                    self.err(format!("{what} of a corrupted {kn} (instance {id})"));
                    return false;
                }
                true
            }
            Some(3) => {
                self.err(format!("{what} of an already dropped {kn} (instance {id})"));
                false
            }
            _ => {
                self.err(format!("{what} of a {kn} that never existed (garbage instance {id})"));
                false
            }
        }
    }
    fn drop(&mut self, id: u32, kind: u8, bits: u32) {
        if self.check("drop", id, kind, bits) {
            self.state[id as usize] = 3;
            self.dropped += 1;
            if kind == 1 {
                self.live_keys -= 1
            } else {
                self.live_vals -= 1
            }
        }
    }
}

/// Start of a case: forget everything.
pub fn reset() {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.state.clear();
        r.bits.clear();
        r.live_keys = 0;
        r.live_vals = 0;
        r.created = 0;
        r.dropped = 0;
        r.uses = 0;
        r.errs.clear();
    });
    disarm();
    CMPS.with(|c| c.set(0));
    KCLONES.with(|c| c.set(0));
    VCLONES.with(|c| c.set(0));
    EVENTS.with(|c| c.set(0));
    CMP_CAP.with(|c| c.set(u64::MAX));
}
pub fn live() -> (usize, usize) {
    REG.with(|r| {
        let r = r.borrow();
        (r.live_keys, r.live_vals)
    })
}
#[derive(Default, Clone, Copy, Debug)]
pub struct Totals {
    pub created: u64,
    pub dropped: u64,
    pub uses: u64,
}
pub fn totals() -> Totals {
    REG.with(|r| {
        let r = r.borrow();
        Totals { created: r.created, dropped: r.dropped, uses: r.uses }
    })
}
pub fn take_errs() -> Vec<String> {
    REG.with(|r| std::mem::take(&mut r.borrow_mut().errs))
}
pub fn has_errs() -> bool {
    REG.with(|r| !r.borrow().errs.is_empty())
}
pub fn cmps() -> u64 {
    CMPS.with(|c| c.get())
}
pub fn kclones() -> u64 {
    KCLONES.with(|c| c.get())
}
pub fn vclones() -> u64 {
    VCLONES.with(|c| c.get())
}
pub fn events() -> u64 {
    EVENTS.with(|c| c.get())
}
/// An operation that makes more comparisons than this is running away.
pub fn cap_cmps(extra: u64) {
    CMP_CAP.with(|c| c.set(cmps().saturating_add(extra)));
}
/// Panic at the n-th (1-based) event of the kinds in mask.
pub fn arm(n: u64, mask: u8) {
    FUSE.with(|c| c.set(n));
    FUSE_MASK.with(|c| c.set(mask));
    FUSE_FIRED.with(|c| c.set(0));
    EVENTS.with(|c| c.set(0));
}
/// Count events of the kinds in mask without ever panicking.
pub fn arm_count(mask: u8) {
    arm(0, mask)
}
pub fn disarm() {
    FUSE.with(|c| c.set(0));
    FUSE_MASK.with(|c| c.set(0));
}
pub fn fired() -> u8 {
    FUSE_FIRED.with(|c| c.get())
}

/// Called by monitored closures and iterators of the workload too.
pub fn event(e: Ev) {
    let mask = FUSE_MASK.with(|c| c.get());
    if mask & e as u8 != 0 {
        EVENTS.with(|c| c.set(c.get() + 1));
        let left = FUSE.with(|c| c.get());
        if left > 0 {
            FUSE.with(|c| c.set(left - 1));
            if left == 1 && !std::thread::panicking() {
                FUSE_MASK.with(|c| c.set(0));
                FUSE_FIRED.with(|c| c.set(e as u8));
                std::panic::panic_any(Injected);
            }
        }
    }
}

fn reg_create(kind: u8, bits: u32) -> u32 {
    REG.with(|r| r.borrow_mut().create(kind, bits))
}
fn reg_check(what: &str, id: u32, kind: u8, bits: u32) {
    REG.with(|r| {
        r.borrow_mut().check(what, id, kind, bits);
    })
}
fn reg_drop(id: u32, kind: u8, bits: u32) {
    let _ = REG.try_with(|r| r.borrow_mut().drop(id, kind, bits));
}

/// Borrowed form of a key: ordered by its upper 20 bits; the lower 12 are a tag that comparisons ignore.
#[repr(transparent)]
#[derive(Clone, Copy)]
pub struct Qk(pub u32);
pub const TAG_BITS: u32 = 12;
pub const MAX_KEY: u32 = (1 << 20) - 1;
impl Qk {
    pub fn of(k: u32) -> Qk {
        debug_assert!(k <= MAX_KEY);
        Qk(k << TAG_BITS)
    }
    pub fn key(&self) -> u32 {
        self.0 >> TAG_BITS
    }
}
fn count_cmp() {
    CMPS.with(|c| {
        c.set(c.get() + 1);
        if CMP_CAP.with(|x| x.get()) < c.get() && !std::thread::panicking() {
            CMP_CAP.with(|x| x.set(u64::MAX));
            panic!("runaway operation: too many comparisons");
        }
    });
    event(Ev::Cmp);
}
impl PartialEq for Qk {
    fn eq(&self, o: &Qk) -> bool {
        count_cmp();
        self.key() == o.key()
    }
}
impl Eq for Qk {}
impl PartialOrd for Qk {
    fn partial_cmp(&self, o: &Qk) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Qk {
    fn cmp(&self, o: &Qk) -> Ordering {
        count_cmp();
        self.key().cmp(&o.key())
    }
}

pub trait KeyT: Clone + Ord + Borrow<Qk> + fmt::Debug + Hash + 'static {
    const NAME: &'static str;
    fn mk(key: u32, tag: u32) -> Self;
    fn bits(&self) -> u32;
    fn key(&self) -> u32 {
        self.bits() >> TAG_BITS
    }
    fn tag(&self) -> u32 {
        self.bits() & ((1 << TAG_BITS) - 1)
    }
    fn q(&self) -> &Qk {
        self.borrow()
    }
}
pub trait ValT: Clone + Default + PartialEq + Eq + PartialOrd + Ord + fmt::Debug + Hash + 'static {
    const NAME: &'static str;
    fn mk(v: u64) -> Self;
    fn get(&self) -> u64;
    fn set(&mut self, v: u64);
}

macro_rules! key_type {
    ($T:ident, $name:literal, { $($f:ident : $ft:ty = $mk:expr, $chk:expr);* }) => {
        pub struct $T { id: u32, q: Qk, $($f: $ft),* }
        impl $T {
            #[inline]
            fn chk(&self, what: &str) {
                reg_check(what, self.id, 1, self.q.0);
                $( #[allow(clippy::redundant_closure_call)]
                   if !($chk)(&self.$f, self.q.0) {
                    REG.with(|r| r.borrow_mut().err(format!("{what}: key storage overwritten")));
                } )*
            }
        }
        impl KeyT for $T {
            const NAME: &'static str = $name;
            fn mk(key: u32, tag: u32) -> Self {
                let b = (key << TAG_BITS) | (tag & ((1 << TAG_BITS) - 1));
                $T { id: reg_create(1, b), q: Qk(b), $($f: ($mk)(b)),* }
            }
            fn bits(&self) -> u32 { self.chk("read"); self.q.0 }
        }
        impl Clone for $T {
            fn clone(&self) -> Self {
                self.chk("clone");
                event(Ev::Clone);
                KCLONES.with(|c| c.set(c.get() + 1));
                $T { id: reg_create(1, self.q.0), q: self.q, $($f: ($mk)(self.q.0)),* }
            }
        }
        impl Drop for $T {
            fn drop(&mut self) {
                reg_drop(self.id, 1, self.q.0);
                event(Ev::Drop);
            }
        }
        impl PartialEq for $T {
            fn eq(&self, o: &Self) -> bool { self.chk("compare"); o.chk("compare"); self.q == o.q }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
        }
        impl Ord for $T {
            fn cmp(&self, o: &Self) -> Ordering { self.chk("compare"); o.chk("compare"); self.q.cmp(&o.q) }
        }
        impl Borrow<Qk> for $T {
            fn borrow(&self) -> &Qk { self.chk("borrow"); &self.q }
        }
        impl Hash for $T {
            fn hash<H: Hasher>(&self, h: &mut H) { self.chk("hash"); self.q.key().hash(h) }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.chk("print"); write!(f, "{}", self.q.key()) }
        }
    };
}
// fits in a machine word: the fixed-node map searches such keys linearly
key_type!(SKey, "small", {});
// larger than a word, owns heap memory
key_type!(BKey, "big", { heap: Box<u32> = |b: u32| Box::new(!b), |h: &Box<u32>, b: u32| **h == !b });

macro_rules! val_type {
    ($T:ident, $name:literal, { $($f:ident : $ft:ty = $mk:expr, $chk:expr);* }) => {
        pub struct $T { id: u32, v: u64, $($f: $ft),* }
        impl $T {
            fn chk(&self, what: &str) {
                reg_check(what, self.id, 2, 0);
                $( #[allow(clippy::redundant_closure_call)]
                   if !($chk)(&self.$f) {
                    REG.with(|r| r.borrow_mut().err(format!("{what}: value storage overwritten")));
                } )*
            }
        }
        impl ValT for $T {
            const NAME: &'static str = $name;
            fn mk(v: u64) -> Self { $T { id: reg_create(2, 0), v, $($f: $mk),* } }
            fn get(&self) -> u64 { self.chk("read"); self.v }
            fn set(&mut self, v: u64) { self.chk("write"); self.v = v }
        }
        impl Default for $T {
            fn default() -> Self { event(Ev::Call); Self::mk(DEFAULT_VAL) }
        }
        impl Clone for $T {
            fn clone(&self) -> Self {
                self.chk("clone");
                event(Ev::Clone);
                VCLONES.with(|c| c.set(c.get() + 1));
                Self::mk(self.v)
            }
        }
        impl Drop for $T {
            fn drop(&mut self) { reg_drop(self.id, 2, 0); event(Ev::Drop); }
        }
        impl PartialEq for $T {
            fn eq(&self, o: &Self) -> bool { self.chk("compare"); o.chk("compare"); self.v == o.v }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
        }
        impl Ord for $T {
            fn cmp(&self, o: &Self) -> Ordering { self.chk("compare"); o.chk("compare"); self.v.cmp(&o.v) }
        }
        impl Hash for $T {
            fn hash<H: Hasher>(&self, h: &mut H) { self.chk("hash"); self.v.hash(h) }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.chk("print"); write!(f, "{}", self.v) }
        }
    };
}
pub const DEFAULT_VAL: u64 = 0xDEFA_0017;
val_type!(SVal, "small", {});
val_type!(BVal, "big", { heap: Box<u32> = Box::new(0xABAD_CAFE), |h: &Box<u32>| **h == 0xABAD_CAFE });

/// Convenience for stacks: the element type of a stack is a value.
pub fn registry_reset_live_check() -> Option<String> {
    let (k, v) = live();
    (k != 0 || v != 0).then(|| format!("{k} keys and {v} values leaked"))
}
