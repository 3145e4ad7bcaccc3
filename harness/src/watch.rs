//! Monitors shared by the engines: iterator driver, count bounds.
use crate::api::*;
use crate::rng::Rng;
use crate::run::Viol;

pub type R<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! fail {
    ($p:expr, $($t:tt)*) => { return Err($crate::run::Viol { prop: $p, msg: format!($($t)*) }) };
}

#[macro_export]
macro_rules! soft {
    ($p:expr, $($t:tt)*) => { $crate::run::soft($crate::run::Viol { prop: $p, msg: format!($($t)*) })? };
}

pub struct Drive {
    /// share of cases in which the iterator is dropped half way
    pub abandon: bool,
    pub steps_back: bool,
    /// 0 = any mix, 1 = front only, 2 = back only
    pub dir: u8,
    /// size must be announced exactly (whole collections) or only consistently (ranges)
    pub exact: bool,
}
impl Drive {
    pub fn rand(rng: &mut Rng, exact: bool) -> Drive {
        Drive { abandon: rng.chance(1, 4), steps_back: true, dir: *rng.pick(&[0, 0, 0, 1, 2]), exact }
    }
}

/// What was visited: indices into the expected sequence, in [0, front) and [back, n).
pub struct Visited {
    pub front: usize,
    pub back: usize,
    pub steps: u64,
    pub drained: bool,
}

/// Steps an iterator in a random mix and compares everything it says with the expected sequence.
/// `see(item, index)` checks one item; it is called for each item handed out.
pub fn drive<'a, T>(
    label: &'static str,
    what: &str,
    mut it: DynIt<'a, T>,
    n: usize,
    d: &Drive,
    rng: &mut Rng,
    mut see: impl FnMut(T, usize) -> Result<(), String>,
) -> R<Visited> {
    let de = it.double_ended() && d.steps_back;
    let (mut f, mut b) = (0usize, n);
    let mut steps = 0u64;
    let stop_at = if d.abandon && n > 0 { rng.below(n + 1) } else { usize::MAX };
    let few_checks = n > 300;
    let finale = rng.below(8);
    let finale_at = if rng.chance(1, 3) { rng.below(n + 1) } else { usize::MAX };
    let p_back = if !de {
        0
    } else {
        match d.dir {
            0 => *rng.pick(&[10, 50, 50, 90]),
            1 => 0,
            _ => 100,
        }
    };
    macro_rules! lens {
        () => {
            if !few_checks || steps < 20 || b - f < 5 || rng.chance(1, 50) {
                let left = b - f;
                if let Some(l) = it.exact_len() {
                    if l != left {
                        fail!(label, "{what}: len() = {l} with {left} of {n} elements to come");
                    }
                }
                let (lo, hi) = it.hint();
                let bad = if d.exact { lo != left || hi != Some(left) } else { lo > left || hi.map_or(false, |h| h < left) };
                if bad {
                    fail!(label, "{what}: size_hint() = ({lo}, {hi:?}) with {left} of {n} elements to come");
                }
            }
        };
    }
    lens!();
    loop {
        if f + (n - b) >= stop_at {
            return Ok(Visited { front: f, back: b, steps, drained: false });
        }
        if f + (n - b) >= finale_at && finale < 6 {
            // finish by an internal-iteration adaptor
            match finale {
                0 | 1 => {
                    let back = de && finale == 1;
                    let rest = it.fold_rest(back);
                    if rest.len() != b - f {
                        fail!(label, "{what}: {} yielded {} of {} remaining elements", if back { "rfold" } else { "fold" }, rest.len(), b - f);
                    }
                    for (j, x) in rest.into_iter().enumerate() {
                        let ix = if back { b - 1 - j } else { f + j };
                        if let Err(e) = see(x, ix) {
                            fail!(label, "{what}: fold item {ix} of {n}: {e}");
                        }
                    }
                    return Ok(Visited { front: n, back: n, steps, drained: true });
                }
                4 | 5 => {
                    let way = rng.below(7) as u8;
                    let rest = it.feed_rest(way);
                    if rest.len() != b - f {
                        fail!(label, "{what}: internal iteration (way {way}) yielded {} of {} remaining elements", rest.len(), b - f);
                    }
                    for (j, x) in rest.into_iter().enumerate() {
                        if let Err(e) = see(x, f + j) {
                            fail!(label, "{what}: internal iteration (way {way}), item {} of {n}: {e}", f + j);
                        }
                    }
                    return Ok(Visited { front: n, back: n, steps, drained: true });
                }
                2 => {
                    let c = it.count_rest();
                    if c != b - f {
                        fail!(label, "{what}: count() = {c} with {} elements to come", b - f);
                    }
                    return Ok(Visited { front: f, back: b, steps, drained: true });
                }
                _ => {
                    let left = b - f;
                    let l = it.last_rest();
                    match l {
                        Some(x) if left > 0 => {
                            if let Err(e) = see(x, b - 1) {
                                fail!(label, "{what}: last(): {e}");
                            }
                            return Ok(Visited { front: f, back: b, steps, drained: true });
                        }
                        None if left == 0 => return Ok(Visited { front: f, back: b, steps, drained: true }),
                        x => fail!(label, "{what}: last() is {} with {left} elements to come", if x.is_some() { "some" } else { "none" }),
                    }
                }
            }
        }
        steps += 1;
        let back = de && rng.chance(p_back, 100);
        let left = b - f;
        let skip = if !rng.chance(1, 8) {
            0
        } else if rng.chance(1, 6) {
            *rng.pick(&[left / 2, left.saturating_sub(1), left, left + 1, usize::MAX])
        } else {
            rng.below(4)
        };
        let x = match (back, skip) {
            (false, 0) => it.next(),
            (true, 0) => it.next_back(),
            (false, s) => it.nth(s),
            (true, s) => it.nth_back(s),
        };
        match x {
            Some(x) => {
                if left <= skip {
                    fail!(label, "{what}: yielded an element beyond the {n} of the collection (step {steps}, back={back})");
                }
                let ix = if back {
                    b -= skip + 1;
                    b
                } else {
                    f += skip + 1;
                    f - 1
                };
                if let Err(e) = see(x, ix) {
                    fail!(label, "{what}: item at position {ix} of {n} (step {steps}, back={back}, skip={skip}): {e}");
                }
            }
            None => {
                if left > skip {
                    fail!(label, "{what}: ended with {left} of {n} elements to come (step {steps}, back={back})");
                }
                if back {
                    b = f
                } else {
                    f = b
                }
                let _ = left;
                // stays exhausted
                for j in 0..3 {
                    let y = if de && (j == 1 || p_back == 100) { it.next_back() } else { it.next() };
                    if y.is_some() {
                        fail!(label, "{what}: yielded an element after being exhausted");
                    }
                    lens!();
                }
                return Ok(Visited { front: f, back: b, steps, drained: true });
            }
        }
        lens!();
    }
}

/// A consuming iterator that lives on while its collection's clones are worked on.
pub struct Held<T, W> {
    it: DynIt<'static, T>,
    want: Vec<W>,
    f: usize,
    b: usize,
    what: String,
    pub lin: Vec<u32>,
}
impl<T, W> Held<T, W> {
    pub fn new(it: DynIt<'static, T>, want: Vec<W>, what: String, lin: Vec<u32>) -> Self {
        let b = want.len();
        Held { it, want, f: 0, b, what, lin }
    }
    /// an upper bound on the elements it keeps alive
    pub fn len(&self) -> usize {
        self.want.len()
    }
    /// Some steps; true if it is done with.
    pub fn step(&mut self, label: &'static str, exact: bool, rng: &mut Rng, mut see: impl FnMut(T, &W) -> Result<(), String>) -> R<bool> {
        let (what, n) = (&self.what, self.want.len());
        let p_back = if self.it.double_ended() { *rng.pick(&[0, 50, 100]) } else { 0 };
        for _ in 0..1 + rng.below(12) {
            let back = rng.chance(p_back, 100);
            let x = if back { self.it.next_back() } else { self.it.next() };
            match x {
                Some(_) if self.f == self.b => fail!(label, "{what}: yielded more than its {n} elements, other clones having been worked on meanwhile"),
                Some(x) => {
                    let ix = if back {
                        self.b -= 1;
                        self.b
                    } else {
                        self.f += 1;
                        self.f - 1
                    };
                    if let Err(e) = see(x, &self.want[ix]) {
                        fail!(label, "{what}: item {ix} of {n} (back={back}), other clones having been worked on meanwhile: {e}");
                    }
                }
                None if self.f < self.b => fail!(label, "{what}: ended with {} of {n} elements to come, other clones having been worked on meanwhile", self.b - self.f),
                None => return Ok(true),
            }
            let left = self.b - self.f;
            let (lo, hi) = self.it.hint();
            if lo > left || hi.map_or(false, |h| h < left) || (exact && (lo != left || hi != Some(left))) || self.it.exact_len().map_or(false, |l| l != left) {
                fail!(label, "{what}: size_hint() = ({lo}, {hi:?}), len() = {:?} with {left} of {n} elements to come", self.it.exact_len());
            }
        }
        Ok(false)
    }
}

/// Upper bounds on element copies and comparisons of one point operation.
#[derive(Clone, Copy)]
pub struct Bounds {
    /// B-tree minimum occupancy, 0 for AVL
    pub n: usize,
}
impl Bounds {
    pub fn height(&self, len: usize) -> usize {
        if self.n == 0 {
            crate::avl_height(len)
        } else {
            crate::btree_height(len, self.n)
        }
    }
    fn width(&self) -> u64 {
        if self.n == 0 {
            1
        } else {
            2 * self.n as u64 + 1
        }
    }
    /// copies (of each kind) that a look-up for update or an insertion into a shared collection of len elements may make: one path
    pub fn copies_path(&self, len: usize) -> u64 {
        (self.height(len) as u64) * self.width() + 2
    }
    /// ... and a removal or a pop, which may have to rebalance with a neighbour on each level
    pub fn copies(&self, len: usize) -> u64 {
        let h = self.height(len) as u64;
        if self.n == 0 {
            3 * h + 4
        } else {
            (2 * h + 1) * self.width()
        }
    }
    /// copies that stepping a mutable iterator over k of len elements may make. A node has either been passed
    /// entirely, and then holds visited elements only, or lies on the path to one of the two ends of what was visited.
    pub fn iter_copies(&self, len: usize, k: usize) -> u64 {
        let h = self.height(len) as u64;
        k as u64 + if self.n == 0 { 4 * h + 4 } else { (2 * h + 1) * self.width() }
    }
    pub fn cmps(&self, len: usize) -> u64 {
        let h = self.height(len) as u64;
        if self.n == 0 {
            4 * h + 6
        } else {
            let w = 2 * self.n as u64 + 1;
            // how a node is searched is up to the library: the node size is a constant
            let per = (w + 1).max(2 * (64 - w.leading_zeros() as u64) + 2);
            3 * per * (h + 1)
        }
    }
}
