use lcc_harness::{deep, run};
fn main() {
    let o = run::parse_args();
    let (n, t, long) = if o.tier == "thorough" { (2000, 240.0, 1_000_000) } else { (3 * deep::SCENARIOS.len() as u64, 40.0, 200_000) };
    run::run(&o, n, t, "each scenario on stacks of 30, 20000-45000 and (on a 128 KiB call stack) very many elements", |i| deep::case(o.seed, i, long));
}
