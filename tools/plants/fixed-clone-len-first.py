property = "C16"
needs = "an element clone that panics while a shared fixed node is being copied"
breaks = "InlineVec::clone counts each element before it has been cloned, so a panic in clone makes the unwinding drop an uninitialised element"
edits = [("src/btree/core.rs", """        for i in 0..(self.len as usize) {
            unsafe {
                ret.keys[i].write(self.keys[i].assume_init_ref().clone());
                ret.vals[i].write(self.vals[i].assume_init_ref().clone());
            }
        }
        ret.len = self.len;
""", """        for i in 0..(self.len as usize) {
            ret.len += 1; // do not leak what was cloned if a clone panics
            unsafe {
                ret.keys[i].write(self.keys[i].assume_init_ref().clone());
                ret.vals[i].write(self.vals[i].assume_init_ref().clone());
            }
        }
""")]
demo = r'''
use lazy_clone_collections::btree::fixed::BTreeMap;
use std::cell::Cell;
thread_local!(static BOOM: Cell<bool> = Cell::new(false); static LIVE: Cell<i64> = Cell::new(0));
const MAGIC: u64 = 0x5eed_5eed_1234_4321;
struct V(u64);
impl V { fn new() -> V { LIVE.with(|l| l.set(l.get() + 1)); V(MAGIC) } }
impl Clone for V { fn clone(&self) -> V { if BOOM.with(|b| b.get()) { panic!("clone") } V::new() } }
impl Drop for V { fn drop(&mut self) {
    if self.0 != MAGIC { std::process::exit(3) } // dropped what was never created
    self.0 = 0;
    LIVE.with(|l| l.set(l.get() - 1)) } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut m = BTreeMap::new();
    for i in 0..8u32 { m.insert(i, V::new()); }
    let mut c = m.clone();
    BOOM.with(|b| b.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { c.insert(100, V::new()); }));
    assert!(r.is_err());
    BOOM.with(|b| b.set(false));
    drop(c);
    assert_eq!(m.len(), 8);
    drop(m);
    assert!(LIVE.with(|l| l.get()) >= 0, "dropped more than was created");
}
'''
