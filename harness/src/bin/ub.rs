//! Single-threaded and without extras, for Miri and AddressSanitizer.  One line per case goes to --state so that a crash can be placed.
use lcc_harness::{run, ub};
use serde_json::json;
use std::io::Write;
use std::time::{Duration, Instant};
fn main() {
    let o = run::parse_args();
    if o.extra.contains_key("noop") {
        return;
    }
    run::quiet_panics();
    let get = |k: &str, d: u64| o.extra.get(k).map_or(d, |x| x.parse().unwrap());
    let (from, stride, ops) = (get("from", 0), get("stride", 1), get("ops", 60) as usize);
    let t0 = Instant::now();
    let limit = Duration::from_secs_f64(o.time.unwrap_or(10.0));
    let new_env = || ub::Env { panics: get("panics", 0) == 1, answers: get("answers", 0) == 1, kind: get("kind", 0), ..Default::default() };
    let mut env = new_env();
    let mut nontrivial = 0u64;
    let (mut cases, mut viols, mut others, mut soft) = (0u64, vec![], vec![], 0);
    let mut i = from;
    if let Some(x) = o.only {
        i = x;
        run::echo();
    }
    let mut state = o.state.as_ref().map(|p| std::fs::File::create(p).unwrap());
    loop {
        if cases >= o.cases.unwrap_or(u64::MAX) || (o.only.is_some() && cases == 1) || t0.elapsed() > limit {
            break;
        }
        if let Some(f) = &mut state {
            writeln!(f, "{i}").unwrap();
        }
        let before = env.n;
        let r = ub::case(o.seed, i, ops, &mut env);
        // shared structure and iterators were involved
        nontrivial += (env.n[2] > before[2] && env.n[3] > before[3]) as u64;
        if let Err(ub::Bad::Soft(e)) = &r {
            soft += 1;
            if others.len() < 3 {
                others.push(json!({"prop": "other", "msg": e, "case": i}));
            }
        }
        if let Err(ub::Bad::Hard(e)) = r {
            run::trace_start();
            let _ = ub::case(o.seed, i, ops, &mut new_env());
            let t = run::trace_take();
            let (a, b) = (t.first().cloned().unwrap_or_default(), t.last().cloned().unwrap_or_default());
            viols.push(json!({"prop": o.prop, "msg": format!("{a}: {b}: {e}"), "case": i}));
            break;
        }
        cases += 1;
        i += stride;
    }
    if let Some(f) = &mut state {
        writeln!(f, "done").unwrap();
    }
    // what one case consists of
    let mut samples = vec![];
    if viols.is_empty() && o.only.is_none() && cases > 0 && get("samples", 1) == 1 {
        run::trace_start();
        let _ = ub::case(o.seed, from, ops, &mut new_env());
        let mut t = run::trace_take();
        t.truncate(25);
        samples.push(json!({"case": from, "first_operations": t}));
    }
    run::write(&o.out, &json!({"cases": cases, "distinct_nontrivial": nontrivial,
        "rule": "random histories over sharing maps, sets and stacks of many element layouts (each case has its own index and so its own stream); non-trivial when clones and iterators took part", "stats": env.stats().0, "violations": viols, "other_violations": others, "other_count": soft, "samples": samples, "wall_s": t0.elapsed().as_secs_f64()}));
}
