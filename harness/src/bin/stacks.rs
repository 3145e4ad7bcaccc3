use lcc_harness::{counting::Counting, stacks, run};
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let o = run::parse_args();
    let p = run::leak_prop(&o.prop);
    let (n, t) = if o.tier == "thorough" { (100_000_000, 300.0) } else { (60_000, 25.0) };
    run::run(&o, n, t, "random histories over a pool of up to six stacks", |i| stacks::case(p, o.seed, i));
}
