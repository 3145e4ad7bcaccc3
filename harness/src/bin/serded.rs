use lcc_harness::{counting::Counting, run, serded};
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let o = run::parse_args();
    let th = o.tier == "thorough";
    let (n, t) = if th { (20_000_000, 300.0) } else { (30_000, 30.0) };
    run::run(&o, n, t, "every length against every announced size, then random sequences, sizes and failure points", |i| serded::case(o.seed, i, th));
}
