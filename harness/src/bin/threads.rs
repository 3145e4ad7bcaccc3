//! One case at a time, each with threads of its own; for ThreadSanitizer, Miri and plain runs.
use lcc_harness::{run, threads};
use serde_json::json;
use std::io::Write;
use std::time::{Duration, Instant};
fn main() {
    let o = run::parse_args();
    if o.extra.contains_key("noop") {
        return;
    }
    run::quiet_panics();
    let get = |k: &str, d: u64| o.extra.get(k).map_or(d, |x| x.parse().unwrap());
    let (from, stride) = (get("from", 0), get("stride", 1));
    let t0 = Instant::now();
    let limit = Duration::from_secs_f64(o.time.unwrap_or(10.0));
    let cold = get("cold", 0) == 1;
    let mut env = threads::Env { cold, ..Default::default() };
    let (mut cases, mut viols, mut others, mut soft) = (0u64, vec![], vec![], 0);
    let mut i = o.only.unwrap_or(from);
    if o.only.is_some() {
        run::echo();
    }
    let mut state = o.state.as_ref().map(|p| std::fs::File::create(p).unwrap());
    // a schedule that shows something need not come back at once
    let max = if o.only.is_some() { 3000 } else { o.cases.unwrap_or(u64::MAX) };
    while cases < max && t0.elapsed() < limit {
        if let Some(f) = &mut state {
            writeln!(f, "{i}").unwrap();
        }
        match threads::case(o.seed, i, &mut env) {
            Err(threads::Bad::Soft(e)) => {
                soft += 1;
                if others.len() < 3 {
                    others.push(json!({"prop": "other", "msg": e, "case": i}));
                }
            }
            Err(threads::Bad::Hard(e)) => {
                viols.push(json!({"prop": "C14", "msg": e, "case": i}));
                break;
            }
            Ok(()) => (),
        }
        cases += 1;
        if o.only.is_none() {
            i += stride;
        }
    }
    if let Some(f) = &mut state {
        writeln!(f, "done").unwrap();
    }
    let mut samples = vec![];
    if viols.is_empty() && o.only.is_none() && get("samples", 1) == 1 {
        run::trace_start();
        let _ = threads::case(o.seed, from, &mut threads::Env { cold, ..Default::default() });
        samples.push(json!({"case": from, "what": run::trace_take()}));
    }
    let mut st = env.stats.0;
    st.insert("distinct_orders_of_operations", env.orders.len() as u64);
    run::write(&o.out, &json!({"cases": cases, "distinct_nontrivial": env.orders.len(), "rule": "phases of concurrent operations on collections that share parts; counted once per order in which the threads' operations began",
        "stats": st, "violations": viols, "other_violations": others, "other_count": soft, "samples": samples, "wall_s": t0.elapsed().as_secs_f64()}));
}
