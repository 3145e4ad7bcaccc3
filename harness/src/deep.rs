//! Call-stack monitors: every operation on very long stacks, with element callbacks that measure how deep they are called, and
//! on a thread whose call stack is far too small for anything that recurses along the list.
use crate::rng::{mix, Rng};
use crate::run::{doing, CaseOut, Viol};
use lazy_clone_collections::Stack;
use std::cell::Cell;
use std::fmt::Write;

thread_local! {
    static BASE: Cell<usize> = const { Cell::new(0) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}
fn probe() {
    let d = BASE.with(|b| b.get()).saturating_sub(here());
    DEPTH.with(|x| x.set(x.get().max(d)));
    CALLS.with(|c| c.set(c.get() + 1));
}

pub struct El(u32);
impl Clone for El {
    fn clone(&self) -> El {
        probe();
        El(self.0)
    }
}
impl Drop for El {
    fn drop(&mut self) {
        probe();
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        probe();
        self.0 == o.0
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> std::cmp::Ordering {
        probe();
        self.0.cmp(&o.0)
    }
}
impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        probe();
        write!(f, "{}", self.0)
    }
}

type S = Stack<El>;
fn build(n: usize) -> S {
    let mut s = S::new();
    for i in 0..n {
        s.push(El(i as u32));
    }
    s
}
struct Null(usize);
impl Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

type Scn = (&'static str, fn(usize, &mut Rng) -> Result<(), String>);
fn want(c: bool, m: &str) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m.to_string())
    }
}
/// cheap check of the whole contents
fn sum(s: &S) -> u64 {
    s.iter().map(|x| x.0 as u64).sum()
}
fn tri(n: usize) -> u64 {
    (n as u64) * (n as u64).saturating_sub(1) / 2
}

pub const SCENARIOS: &[Scn] = &[
    ("drop", |n, _| {
        drop(build(n));
        Ok(())
    }),
    ("clear", |n, _| {
        let mut s = build(n);
        s.clear();
        want(s.is_empty() && s.len() == 0, "not empty after clear")
    }),
    ("clear a clone, then drop the original", |n, _| {
        let mut s = build(n);
        let t = s.clone();
        s.clear();
        want(t.len() == n && sum(&t) == tri(n), "the other clone changed")?;
        drop(s);
        drop(t);
        Ok(())
    }),
    ("drop two stacks sharing a long tail, longer first", |n, _| {
        let s = build(n);
        let mut t = s.clone();
        (0..n / 2).for_each(|i| t.push(El(i as u32)));
        drop(t);
        want(sum(&s) == tri(n), "the shared tail changed")
    }),
    ("drop two stacks sharing a long tail, tail first", |n, _| {
        let s = build(n);
        let mut t = s.clone();
        (0..n / 2).for_each(|i| t.push(El(i as u32)));
        drop(s);
        want(sum(&t) == tri(n) + tri(n / 2), "the stack changed")
    }),
    ("drop many stacks sharing tails of all lengths", |n, r| {
        let mut v = vec![];
        let mut s = S::new();
        for i in 0..n {
            s.push(El(i as u32));
            if r.chance(1, n / 40 + 1) {
                v.push(s.clone());
            }
        }
        v.push(s);
        r.shuffle(&mut v);
        while let Some(x) = v.pop() {
            let l = x.len();
            want(x.iter().count() == l, "wrong length")?;
            drop(x);
        }
        Ok(())
    }),
    ("into_iter, all", |n, _| want(build(n).into_iter().count() == n, "wrong count")),
    ("into_iter, dropped after a few", |n, _| {
        let mut it = build(n).into_iter();
        for _ in 0..n.min(5) {
            it.next();
        }
        drop(it);
        Ok(())
    }),
    ("into_iter of a clone, dropped half way, original later", |n, _| {
        let s = build(n);
        let mut it = s.clone().into_iter();
        for _ in 0..n / 2 {
            it.next();
        }
        drop(it);
        want(sum(&s) == tri(n), "the original changed")?;
        drop(s);
        Ok(())
    }),
    ("into_iter of a clone outlives the original", |n, _| {
        let s = build(n);
        let mut it = s.clone().into_iter();
        it.next();
        drop(s);
        drop(it);
        Ok(())
    }),
    ("into_iter by nth, last, fold", |n, _| {
        build(n).into_iter().nth(n / 2);
        build(n).into_iter().last();
        build(n).into_iter().fold(0, |a, x| a + x.0 as u64);
        Ok(())
    }),
    ("pop all", |n, _| {
        let mut s = build(n);
        let mut c = 0;
        while s.pop().is_some() {
            c += 1
        }
        want(c == n, "wrong count")
    }),
    ("pop all of a clone", |n, _| {
        let s = build(n);
        let mut t = s.clone();
        while t.pop().is_some() {}
        want(sum(&s) == tri(n), "the original changed")
    }),
    ("iter, contains, len, top", |n, _| {
        let s = build(n);
        want(s.iter().count() == n && !s.contains(&El(u32::MAX)) && s.contains(&El(0)), "wrong contents")?;
        want(s.len() == n && s.top().map(|x| x.0) == n.checked_sub(1).map(|x| x as u32), "wrong len or top")
    }),
    ("iter_mut over an unshared stack", |n, _| {
        let mut s = build(n);
        s.iter_mut().for_each(|x| x.0 += 1);
        want(sum(&s) == tri(n) + n as u64, "wrong contents")
    }),
    ("iter_mut over a shared stack", |n, _| {
        let s = build(n);
        let mut t = s.clone();
        t.iter_mut().for_each(|x| x.0 += 1);
        want(sum(&t) == tri(n) + n as u64 && sum(&s) == tri(n), "wrong contents")?;
        drop(s);
        drop(t);
        Ok(())
    }),
    ("iter_mut over a shared stack, dropped half way", |n, _| {
        let s = build(n);
        let mut t = s.clone();
        t.iter_mut().take(n / 2).for_each(|x| x.0 += 1);
        drop(s);
        drop(t);
        Ok(())
    }),
    ("split_off", |n, r| {
        for at in [0, 1.min(n), n / 2, n.saturating_sub(1), n, r.below(n + 1)] {
            let mut s = build(n);
            let t = s.split_off(at);
            want(s.len() == at && t.len() == n - at && sum(&s) + sum(&t) == tri(n), "wrong parts")?;
            if r.chance(1, 2) {
                drop(s);
                drop(t)
            } else {
                drop(t);
                drop(s)
            }
        }
        Ok(())
    }),
    ("split_off of a clone", |n, r| {
        let s = build(n);
        for at in [0, 1.min(n), n / 2, r.below(n + 1)] {
            let mut u = s.clone();
            let t = u.split_off(at);
            want(u.len() == at && t.len() == n - at && sum(&u) + sum(&t) == tri(n), "wrong parts")?;
            want(sum(&s) == tri(n), "the original changed")?;
        }
        Ok(())
    }),
    ("remove at the bottom, in the middle, at the top", |n, r| {
        let mut s = build(n);
        for _ in 0..2 {
            for at in [0, s.len() / 2, s.len().saturating_sub(1), r.below(s.len() + 1)] {
                if at < s.len() {
                    s.remove(at);
                }
            }
        }
        Ok(())
    }),
    ("remove from a clone", |n, r| {
        let s = build(n);
        for at in [0, n / 2, n.saturating_sub(1), r.below(n + 1)] {
            let mut t = s.clone();
            if at < n {
                want(t.remove(at).0 as usize == at, "wrong element")?;
                want(t.len() == n - 1 && sum(&t) + at as u64 == tri(n), "wrong contents")?;
            }
        }
        want(sum(&s) == tri(n), "the original changed")
    }),
    ("remove and split_off out of range", |n, _| {
        let mut s = build(n);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            s.remove(n);
        }));
        want(r.is_err(), "remove did not panic")?;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            s.split_off(n + 1);
        }));
        want(r.is_err() && sum(&s) == tri(n), "split_off did not panic or changed the stack")
    }),
    ("== and != of equal and different stacks", |n, _| {
        let s = build(n);
        let t = build(n);
        let mut u = build(n);
        u.push(El(0));
        let v = build(n.saturating_sub(1));
        want(s == t && !(s != t) && s == s.clone() && s != u && (n == 0 || s != v), "wrong answer")?;
        let mut w = build(n);
        if n > 0 {
            w.remove(0);
            let mut bottom = S::new();
            bottom.push(El(7));
            bottom.extend(w.into_iter().collect::<Vec<_>>().into_iter().rev());
            want((bottom == s) == (n == 1 && 7 == 0), "wrong answer for stacks that differ at the bottom")?;
        }
        Ok(())
    }),
    ("cmp and partial_cmp", |n, _| {
        let s = build(n);
        let t = build(n);
        want(s.cmp(&t).is_eq() && s.partial_cmp(&t) == Some(std::cmp::Ordering::Equal), "wrong answer")?;
        want(s <= t && s >= t && !(s < t) && !(s > t), "wrong answer")?;
        let mut u = t.clone();
        u.push(El(n as u32));
        want(n == 0 || (s < u && u > s), "wrong answer")
    }),
    ("debug text", |n, _| {
        let s = build(n.min(40_000));
        let mut w = Null(0);
        write!(w, "{s:?}").unwrap();
        write!(w, "{s:#?}").unwrap();
        want(w.0 > s.len(), "too short")
    }),
    ("clone_from, assignment, take, replace over a long stack", |n, _| {
        let mut s = build(n);
        let t = build(3);
        s.clone_from(&t);
        s = build(n);
        want(sum(&s) == tri(n), "wrong contents")?;
        s = t.clone();
        want(s.len() == 3, "wrong contents")?;
        let mut u = build(n);
        drop(std::mem::take(&mut u));
        let mut o = Some(build(n));
        if let Some(x) = &mut o {
            x.push(El(1));
        }
        o.take();
        drop(o);
        let b: Box<dyn std::any::Any> = Box::new(build(n));
        drop(b);
        Ok(())
    }),
    ("collect, extend, from a vector", |n, _| {
        let s: S = (0..n).map(|i| El(i as u32)).collect();
        let t = S::from((0..n).map(|i| El(i as u32)).collect::<Vec<_>>());
        let mut u = S::default();
        u.extend((0..n).map(|i| El(i as u32)));
        want(s == t && t == u && sum(&u) == tri(n), "wrong contents")
    }),
    ("top_mut and push on a clone, then drop in turn", |n, _| {
        let s = build(n);
        let mut t = s.clone();
        if let Some(x) = t.top_mut() {
            x.0 = 5
        }
        t.push(El(1));
        drop(s);
        want(t.len() == n + 1, "wrong length")?;
        t.pop();
        drop(t);
        Ok(())
    }),
    ("unwinding past a long stack", |n, _| {
        let r = std::panic::catch_unwind(|| {
            let _s = build(n);
            let _t = _s.clone();
            std::panic::panic_any(crate::tok::Injected);
        });
        want(r.is_err(), "no panic?")
    }),
    ("a random history over long stacks", |n, r| {
        let mut v: Vec<S> = vec![build(n)];
        for _ in 0..12 {
            let i = r.below(v.len());
            match r.below(8) {
                0 | 1 => {
                    let c = v[i].clone();
                    v.push(c)
                }
                2 => {
                    let at = r.below(v[i].len() + 1);
                    let t = v[i].split_off(at);
                    v.push(t)
                }
                3 => {
                    if !v[i].is_empty() {
                        let at = r.below(v[i].len());
                        v[i].remove(at);
                    }
                }
                4 => v[i].extend((0..n / 4).map(|i| El(i as u32))),
                5 => {
                    let k = r.below(v[i].len() + 1);
                    v[i].iter_mut().take(k).for_each(|x| x.0 ^= 1)
                }
                6 => {
                    let k = r.below(v[i].len() + 1);
                    let c = std::mem::take(&mut v[i]);
                    let mut it = c.into_iter();
                    for _ in 0..k {
                        it.next();
                    }
                }
                _ => {
                    if v.len() > 1 {
                        v.swap_remove(i);
                    } else {
                        v[0].clear()
                    }
                }
            }
        }
        for s in &v {
            want(s.iter().count() == s.len(), "wrong length")?;
        }
        r.shuffle(&mut v);
        Ok(())
    }),
];

fn on_thread(stack: usize, n: usize, f: fn(usize, &mut Rng) -> Result<(), String>, rng: Rng) -> Result<(usize, u64), String> {
    std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            let mut rng = rng;
            BASE.with(|b| b.set(here()));
            DEPTH.with(|b| b.set(0));
            CALLS.with(|b| b.set(0));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(n, &mut rng)));
            match r {
                Ok(Ok(())) => Ok((DEPTH.with(|d| d.get()), CALLS.with(|d| d.get()))),
                Ok(Err(e)) => Err(e),
                Err(_) => Err(format!("unexpected panic: {}", crate::run::panic_msg())),
            }
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| Err("thread died".into()))
}

pub const TINY: usize = 128 << 10;

pub fn case(seed: u64, idx: u64, long: usize) -> CaseOut {
    let mut out = CaseOut::default();
    let (name, f) = SCENARIOS[(idx as usize) % SCENARIOS.len()];
    let rng = Rng::derive(seed ^ 0xdee9, idx);
    // three runs: short and long with a deep call stack, measuring; very long with a tiny call stack
    let n = [20_000, 45_000, 31_234][(idx as usize / SCENARIOS.len()) % 3];
    doing(|| format!("{name}: 30 and {n} elements measured, {long} elements on a call stack of {TINY} bytes"));
    let r = (|| {
        let (d0, _) = on_thread(256 << 20, 30, f, rng.clone())?;
        let (d1, c) = on_thread(256 << 20, n, f, rng.clone())?;
        out.stats.add("callbacks_measured", c);
        out.stats.max("max_depth_of_callbacks_30_elements", d0 as u64);
        out.stats.max("max_depth_of_callbacks_long", d1 as u64);
        if d1 > d0 + 6000 {
            return Err(format!("call stack {d1} bytes deep with {n} elements, {d0} with 30"));
        }
        // a stack overflow here kills the process, which the runner reports
        on_thread(TINY, long, f, rng.clone())?;
        Ok(())
    })();
    if let Err(e) = r {
        out.viols.push(Viol { prop: "C12", msg: format!("{name}: {e}") });
    }
    out.stats.add("tiny_call_stack_runs", 1);
    out.stats.max("max_elements", long as u64);
    out.sig = mix(idx ^ seed.rotate_left(32));
    out.nontrivial = true;
    out.states = vec![mix((idx % SCENARIOS.len() as u64) * 1_000_003 + n as u64)];
    out
}
