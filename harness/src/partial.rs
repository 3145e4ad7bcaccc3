//! Comparison and debug text with elements that are not equal to themselves, strings and nested collections, against the standard
//! collections.
use crate::rng::{mix, Rng};
use crate::run::{doing, CaseOut, Stats};
use crate::watch::*;
use crate::fail;
use lazy_clone_collections as lcc;
use lcc::{AvlMap, AvlSet, Stack};
use std::cmp::Ordering;
use std::collections::{BTreeMap as Std, BTreeSet as StdSet};
use std::fmt::Debug;

type B<K, V, const N: usize> = lcc::btree::BTreeMap<K, V, N>;
type BS<T, const N: usize> = lcc::btree::btree_set::BTreeSet<T, N>;

type Six = (bool, bool, Option<Ordering>, [bool; 4]);
#[allow(clippy::eq_op)]
fn six<T: PartialEq + PartialOrd>(a: &T, b: &T) -> Six {
    (a == b, a != b, a.partial_cmp(b), [a < b, a <= b, a > b, a >= b])
}
fn judge(what: &str, got: Six, want: Six, a: &dyn Debug, b: &dyn Debug) -> R {
    if got != want {
        fail!("C17", "{what}: (==, !=, partial_cmp, [<, <=, >, >=]) of {a:?} and {b:?} gave {got:?}, the standard collection gives {want:?}");
    }
    Ok(())
}
fn text(what: &str, got: &dyn Debug, want: &dyn Debug) -> R {
    let (g, w) = (format!("{got:?}"), format!("{want:?}"));
    if !g.contains(&w) {
        fail!("C17", "{what}: debug text {g:?} does not list the contents {w:?}");
    }
    // the pretty form lists the same in the same order
    let strip = |s: String| s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect::<String>();
    let (g, w) = (strip(format!("{got:#?}")), strip(format!("{want:#?}")));
    if !g.contains(&w) {
        fail!("C17", "{what}: pretty debug text {g:?} does not list the contents {w:?}");
    }
    Ok(())
}

trait Val: Clone + PartialEq + PartialOrd + Debug {
    fn rnd(r: &mut Rng) -> Self;
}
impl Val for f64 {
    fn rnd(r: &mut Rng) -> f64 {
        match r.below(8) {
            0 | 1 => f64::NAN,
            2 => 0.0,
            3 => -0.0,
            4 => f64::INFINITY,
            _ => r.below(3) as f64,
        }
    }
}
impl Val for String {
    fn rnd(r: &mut Rng) -> String {
        ["", "a", "ab", "b\n\"", "ü", "aa"][r.below(6)].to_string()
    }
}
impl Val for Option<f32> {
    fn rnd(r: &mut Rng) -> Option<f32> {
        match r.below(5) {
            0 => None,
            1 => Some(f32::NAN),
            _ => Some(r.below(2) as f32),
        }
    }
}
/// nested: an inner collection that is shared, too
impl Val for Stack<f64> {
    fn rnd(r: &mut Rng) -> Self {
        let n = r.below(3);
        (0..n).map(|_| f64::rnd(r)).collect()
    }
}
impl Val for AvlMap<u8, f64> {
    fn rnd(r: &mut Rng) -> Self {
        let n = r.below(3);
        (0..n).map(|_| (r.below(3) as u8, f64::rnd(r))).collect()
    }
}

/// Two sequences of pairs that differ little or not at all, and a way to have the second one share with the first.
fn pairs<V: Val>(r: &mut Rng) -> (Vec<(u8, V)>, Vec<(u8, V)>) {
    let n = *r.pick(&[0, 1, 2, 3, 5, 12, 30]);
    let uni = (2 * n).max(4).min(250);
    let mut a: Std<u8, V> = Std::new();
    for _ in 0..n {
        a.insert(r.below(uni) as u8, V::rnd(r));
    }
    let mut b = a.clone();
    for _ in 0..r.below(3) {
        match r.below(3) {
            0 => {
                b.insert(r.below(uni) as u8, V::rnd(r));
            }
            1 => {
                b.remove(&(r.below(uni) as u8));
            }
            _ => {
                let k = b.keys().nth(r.below(b.len().max(1))).copied();
                if let Some(k) = k {
                    b.insert(k, V::rnd(r));
                }
            }
        }
    }
    (a.into_iter().collect(), b.into_iter().collect())
}

fn maps<V: Val>(r: &mut Rng, st: &mut Stats) -> R {
    let (a, b) = pairs::<V>(r);
    let (sa, sb): (Std<u8, V>, Std<u8, V>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
    let mut order: Vec<(u8, V)> = b.clone();
    r.shuffle(&mut order);
    doing(|| format!("maps {a:?} and {b:?}"));
    macro_rules! go {
        ($T:ty, $name:expr) => {{
            let x: $T = a.iter().cloned().collect();
            let y: $T = order.iter().cloned().collect();
            judge($name, six(&x, &y), six(&sa, &sb), &sa, &sb)?;
            judge($name, six(&y, &x), six(&sb, &sa), &sb, &sa)?;
            // with itself, with a clone, and with one that shares most of its parts
            let c = x.clone();
            judge($name, six(&x, &x), six(&sa, &sa), &sa, &sa)?;
            judge($name, six(&x, &c), six(&sa, &sa), &sa, &sa)?;
            let mut d = x.clone();
            for (k, _) in &a {
                if !sb.contains_key(k) {
                    d.remove(k);
                }
            }
            for (k, v) in &b {
                d.insert(*k, v.clone());
            }
            judge($name, six(&x, &d), six(&sa, &sb), &sa, &sb)?;
            judge($name, six(&d, &y), six(&sb, &sb), &sb, &sb)?;
            text($name, &x, &sa)?;
            text($name, &d, &sb)?;
            st.add("comparisons_checked", 6 * 6);
        }};
    }
    go!(AvlMap<u8, V>, "AvlMap");
    match r.below(3) {
        0 => go!(B<u8, V, 1>, "BTreeMap<1>"),
        1 => go!(B<u8, V, 2>, "BTreeMap<2>"),
        _ => go!(B<u8, V, 5>, "BTreeMap<5>"),
    }
    Ok(())
}

fn stacks<V: Val>(r: &mut Rng, st: &mut Stats) -> R {
    let (a, b) = pairs::<V>(r);
    let a: Vec<V> = a.into_iter().map(|x| x.1).collect();
    let b: Vec<V> = b.into_iter().map(|x| x.1).collect();
    doing(|| format!("stacks {a:?} and {b:?}"));
    let x: Stack<V> = a.iter().cloned().collect();
    let y: Stack<V> = b.iter().cloned().collect();
    let (ra, rb): (Vec<V>, Vec<V>) = (a.iter().rev().cloned().collect(), b.iter().rev().cloned().collect());
    judge("Stack", six(&x, &y), six(&ra, &rb), &ra, &rb)?;
    judge("Stack", six(&y, &x), six(&rb, &ra), &rb, &ra)?;
    judge("Stack", six(&x, &x), six(&ra, &ra), &ra, &ra)?;
    judge("Stack", six(&x, &x.clone()), six(&ra, &ra), &ra, &ra)?;
    let mut d = x.clone();
    while !d.is_empty() && d.len() > 2.min(a.len()) {
        d.pop();
    }
    for v in a.iter().skip(2) {
        d.push(v.clone());
    }
    judge("Stack", six(&x, &d), six(&ra, &ra), &ra, &ra)?;
    text("Stack", &x, &ra)?;
    st.add("comparisons_checked", 6 * 5);
    Ok(())
}

fn sets(r: &mut Rng, st: &mut Stats) -> R {
    fn el(r: &mut Rng) -> (u8, String) {
        (r.below(4) as u8, String::rnd(r))
    }
    let n = r.below(20);
    let a: StdSet<(u8, String)> = (0..n).map(|_| el(r)).collect();
    let mut b = a.clone();
    for _ in 0..r.below(3) {
        if r.chance(1, 2) {
            b.insert(el(r));
        } else {
            let x = b.iter().nth(r.below(b.len().max(1))).cloned();
            x.map(|x| b.remove(&x));
        }
    }
    doing(|| format!("sets {a:?} and {b:?}"));
    let mut order: Vec<_> = b.iter().cloned().collect();
    r.shuffle(&mut order);
    macro_rules! go {
        ($T:ty, $name:expr) => {{
            let x: $T = a.iter().cloned().collect();
            let y: $T = order.iter().cloned().collect();
            judge($name, six(&x, &y), six(&a, &b), &a, &b)?;
            judge($name, six(&y, &x), six(&b, &a), &b, &a)?;
            let mut d = x.clone();
            d.retain(|x| b.contains(x));
            d.extend(order.iter().cloned());
            judge($name, six(&d, &y), six(&b, &b), &b, &b)?;
            judge($name, six(&x, &d), six(&a, &b), &a, &b)?;
            if x.cmp(&y) != a.cmp(&b) || d.cmp(&y) != Ordering::Equal {
                fail!("C17", "{}: cmp of {a:?} and {b:?}", $name);
            }
            let (hx, hy, hd) = (crate::hash64(&x), crate::hash64(&y), crate::hash64(&d));
            if hy != hd || (a == b && hx != hy) {
                fail!("C17", "{}: equal sets hash differently: {a:?} and {b:?}", $name);
            }
            text($name, &x, &a)?;
            text($name, &d, &b)?;
            st.add("comparisons_checked", 6 * 4 + 2);
        }};
    }
    go!(AvlSet<(u8, String)>, "AvlSet");
    match r.below(3) {
        0 => go!(BS<(u8, String), 1>, "BTreeSet<1>"),
        1 => go!(BS<(u8, String), 2>, "BTreeSet<2>"),
        _ => go!(BS<(u8, String), 5>, "BTreeSet<5>"),
    }
    Ok(())
}

pub fn case(seed: u64, idx: u64) -> CaseOut {
    let mut r = Rng::derive(seed ^ 0x9a27, idx);
    let mut st = Stats::default();
    let kind = r.below(8);
    let res = match kind {
        0 => maps::<f64>(&mut r, &mut st),
        1 => maps::<Option<f32>>(&mut r, &mut st),
        2 => maps::<Stack<f64>>(&mut r, &mut st),
        3 => maps::<AvlMap<u8, f64>>(&mut r, &mut st),
        4 => stacks::<f64>(&mut r, &mut st),
        5 => stacks::<AvlMap<u8, f64>>(&mut r, &mut st),
        6 => stacks::<String>(&mut r, &mut st),
        _ => sets(&mut r, &mut st),
    };
    let mut out = CaseOut::default();
    if let Err(v) = res {
        out.viols.push(v);
    }
    out.sig = mix(r.u64());
    out.states = vec![out.sig];
    out.nontrivial = true;
    out.stats = st;
    out
}
