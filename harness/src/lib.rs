pub mod api;
pub mod counting;
pub mod rng;
pub mod run;
pub mod tok;
pub mod watch;
pub mod maps;
pub mod sets;
#[cfg(feature = "stacks")]
pub mod stacks;
#[cfg(feature = "cost")]
pub mod cost;
#[cfg(feature = "deep")]
pub mod deep;
#[cfg(feature = "partial")]
pub mod partial;
#[cfg(feature = "serded")]
pub mod serded;
#[cfg(feature = "panics")]
pub mod panics;
#[cfg(feature = "threads")]
pub mod threads;
#[cfg(feature = "ub")]
pub mod ub;

use std::hash::{Hash, Hasher};

/// Feeds a hash value its exact byte stream (FNV-1a plus length), so that equal streams and only those hash alike.
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
}
pub fn hash64<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    x.hash(&mut h);
    h.finish()
}

/// upper bound on the height of an AVL tree of n elements
pub fn avl_height(n: usize) -> usize {
    (1.4405 * ((n + 2) as f64).log2()).floor() as usize + 1
}
/// upper bound on the number of levels of a B-tree of n elements and minimum occupancy occ
pub fn btree_height(n: usize, occ: usize) -> usize {
    // a tree of h levels holds at least 2*(occ+1)^(h-1) - 1 elements
    let mut h = 1;
    let mut pow: u128 = 1;
    while 2 * pow * (occ as u128 + 1) - 1 <= n as u128 {
        pow *= occ as u128 + 1;
        h += 1;
    }
    h
}
