use lcc_harness::{partial, run};
fn main() {
    let o = run::parse_args();
    let (n, t) = if o.tier == "thorough" { (20_000_000, 120.0) } else { (150_000, 15.0) };
    run::run(&o, n, t, "pairs of collections that differ little or not at all, holding NaN, strings and nested collections", |i| partial::case(o.seed, i));
}
