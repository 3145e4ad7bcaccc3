use lcc_harness::{cost, counting::Counting, run};
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let o = run::parse_args();
    let p = run::leak_prop(&o.prop);
    let (n, t) = if o.tier == "thorough" { (100_000, 200.0) } else { (400, 25.0) };
    run::run(&o, n, t, "collections of up to 100000 elements cloned, and up to 200 lightly edited versions of one collection", |i| cost::case(p, o.seed, i));
}
