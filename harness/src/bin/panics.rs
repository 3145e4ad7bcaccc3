use lcc_harness::{panics, run};
fn main() {
    let o = run::parse_args();
    let (n, t, p) = if o.tier == "thorough" { (50_000_000, 400.0, 60) } else { (200_000, 30.0, 14) };
    let p = o.extra.get("points").map_or(p, |x| x.parse().unwrap());
    run::run(&o, n, t, "one operation in a small world of sharing collections, with the panic at each (or a sample) of its calls of user code", |i| {
        panics::case(o.seed, i, p)
    });
}
