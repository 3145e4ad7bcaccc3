//! Case runner: a pool of workers, each case a function of (seed, index); results as JSON for check.py.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Stats(pub BTreeMap<&'static str, u64>);
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.0.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
}

#[derive(Default)]
pub struct CaseOut {
    pub viols: Vec<Viol>,
    /// identifies the case up to what it did
    pub sig: u64,
    pub nontrivial: bool,
    pub states: Vec<u64>,
    pub stats: Stats,
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub threads: usize,
    pub out: String,
    pub only: Option<u64>,
    pub cases: Option<u64>,
    pub time: Option<f64>,
    pub state: Option<String>,
    pub extra: BTreeMap<String, String>,
}

pub fn parse_args() -> Opts {
    let mut o = Opts {
        prop: "C01".into(),
        tier: "quick".into(),
        seed: 1,
        threads: 8,
        out: String::new(),
        only: None,
        cases: None,
        time: None,
        state: None,
        extra: BTreeMap::new(),
    };
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i + 1 < a.len() {
        let v = a[i + 1].clone();
        match a[i].as_str() {
            "--prop" => o.prop = v,
            "--tier" => o.tier = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--threads" => o.threads = v.parse().unwrap(),
            "--out" => o.out = v,
            "--only" => o.only = Some(v.parse().unwrap()),
            "--cases" => o.cases = Some(v.parse().unwrap()),
            "--time" => o.time = Some(v.parse().unwrap()),
            "--state" => o.state = Some(v),
            k => {
                o.extra.insert(k.trim_start_matches("--").to_string(), v);
            }
        }
        i += 2;
    }
    o
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static DOING: RefCell<String> = const { RefCell::new(String::new()) };
    static TRACE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
    static TRACING: Cell<bool> = const { Cell::new(false) };
    static LABEL: Cell<&'static str> = const { Cell::new("") };
    static PROP: Cell<&'static str> = const { Cell::new("") };
    static SOFT: RefCell<Vec<Viol>> = const { RefCell::new(Vec::new()) };
}
static ECHO: AtomicBool = AtomicBool::new(false);

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().downcast_ref::<crate::tok::Injected>().is_some() {
            "injected".into()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = format!("{m}{loc}"));
    }));
}
pub fn panic_msg() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}
/// Property that an unexpected panic in what follows breaks.
pub fn label(p: &'static str) {
    LABEL.with(|l| l.set(p))
}
pub fn cur_label() -> &'static str {
    LABEL.with(|l| l.get())
}
/// A violation after which the history can go on: ends the case only when its property is the one being decided.
pub fn soft(v: Viol) -> Result<(), Viol> {
    if v.prop == PROP.with(|p| p.get()) {
        return Err(v);
    }
    SOFT.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() < 3 {
            s.push(v)
        }
    });
    Ok(())
}
/// Name of the operation in progress, for reports.
pub fn doing(f: impl FnOnce() -> String) {
    if TRACING.with(|t| t.get()) {
        let s = f();
        if ECHO.load(Relaxed) {
            eprintln!("OP {s}");
        }
        TRACE.with(|t| {
            if let Some(v) = t.borrow_mut().as_mut() {
                v.push(s.clone());
            }
        });
        DOING.with(|d| *d.borrow_mut() = s);
    }
}
pub fn trace_start() {
    TRACING.with(|t| t.set(true));
    TRACE.with(|t| *t.borrow_mut() = Some(vec![]));
}
pub fn trace_take() -> Vec<String> {
    TRACING.with(|t| t.set(false));
    TRACE.with(|t| t.borrow_mut().take().unwrap_or_default())
}

/// report every step on stderr
pub fn echo() {
    ECHO.store(true, Relaxed);
    trace_start();
}

fn guarded(prop: &'static str, f: impl FnOnce() -> CaseOut) -> CaseOut {
    label(prop);
    PROP.with(|p| p.set(prop));
    let mut o = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => {
            let mut o = CaseOut::default();
            o.viols.push(Viol { prop: cur_label(), msg: format!("unexpected panic: {}", panic_msg()) });
            o
        }
    };
    SOFT.with(|s| o.viols.append(&mut s.borrow_mut()));
    o
}

pub fn leak_prop(p: &str) -> &'static str {
    Box::leak(p.to_string().into_boxed_str())
}

/// Does an observation labelled `label` contradict `prop` too? The first of each pair quotes what the statement of `prop` says.
pub fn counts(prop: &str, label: &str) -> bool {
    label == prop
        || match prop {
            // "after any history of operations ... whether or not parts are shared with clones ... the stored contents agree"
            "C01" => matches!(label, "C02" | "C06" | "C08"),
            // "append, split_off, retain, extend ... shared or not ... and the contents agree"
            "C10" => matches!(label, "C02" | "C06" | "C08"),
            // "iteration (also mutable and consuming), membership, comparison and cloning ... as a private vector would"
            "C11" => matches!(label, "C02" | "C06" | "C08" | "C17"),
            // "leave borrowed operands unchanged"
            "C09" => label == "C02",
            // "All this holds whatever the ... sharing of the operands"
            "C08" => label == "C02",
            _ => false,
        }
}

/// Runs cases 0..n on all workers and writes the outcome.
pub fn run(o: &Opts, n: u64, time_s: f64, rule: &str, case: impl Fn(u64) -> CaseOut + Sync) {
    quiet_panics();
    let prop = leak_prop(&o.prop);
    let t0 = Instant::now();
    let n = o.cases.unwrap_or(n);
    let limit = Duration::from_secs_f64(o.time.unwrap_or(time_s));
    if let Some(i) = o.only {
        ECHO.store(true, Relaxed);
        trace_start();
        let r = guarded(prop, || case(i));
        let tr = trace_take();
        let v: Vec<Value> = r.viols.iter().map(|v| json!({"prop": v.prop, "msg": v.msg, "case": i})).collect();
        write(&o.out, &json!({"cases": 1, "violations": v, "trace": tr, "stats": r.stats.0}));
        return;
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    struct Acc {
        sigs: HashSet<u64>,
        nontriv: HashSet<u64>,
        states: HashSet<u64>,
        stats: Stats,
        viols: Vec<(u64, Viol)>,
        other: Vec<(u64, Viol)>,
        other_n: u64,
        cases: u64,
    }
    let acc = Mutex::new(Acc {
        sigs: HashSet::new(),
        nontriv: HashSet::new(),
        states: HashSet::new(),
        stats: Stats::default(),
        viols: vec![],
        other: vec![],
        other_n: 0,
        cases: 0,
    });
    std::thread::scope(|s| {
        for w in 0..o.threads {
            let (next, stop, acc, case) = (&next, &stop, &acc, &case);
            let state = o.state.clone();
            let work = move || {
                use std::os::unix::fs::FileExt;
                let f = state.and_then(|d| std::fs::File::create(format!("{d}/w{w}")).ok());
                let mut sigs = vec![];
                let mut states: HashSet<u64> = HashSet::new();
                let mut stats = Stats::default();
                let mut cases = 0;
                let mut viols = vec![];
                while !stop.load(Relaxed) {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || t0.elapsed() > limit {
                        break;
                    }
                    if let Some(f) = &f {
                        let _ = f.write_at(format!("{i:<20}").as_bytes(), 0);
                    }
                    let r = guarded(prop, || case(i));
                    cases += 1;
                    sigs.push((r.sig, r.nontrivial));
                    if states.len() < 400_000 {
                        states.extend(r.states);
                    }
                    for (k, v) in r.stats.0 {
                        if k.starts_with("max_") {
                            stats.max(k, v)
                        } else {
                            stats.add(k, v)
                        }
                    }
                    for v in r.viols {
                        if counts(prop, v.prop) {
                            stop.store(true, Relaxed);
                        }
                        viols.push((i, v));
                    }
                }
                if let Some(f) = &f {
                    let _ = f.write_at(format!("{:<20}", "done").as_bytes(), 0);
                }
                let mut a = acc.lock().unwrap();
                a.cases += cases;
                for (s, nt) in sigs {
                    a.sigs.insert(s);
                    if nt {
                        a.nontriv.insert(s);
                    }
                }
                if a.states.len() < 3_000_000 {
                    a.states.extend(states);
                }
                for (k, v) in stats.0 {
                    if k.starts_with("max_") {
                        a.stats.max(k, v)
                    } else {
                        a.stats.add(k, v)
                    }
                }
                for (i, v) in viols {
                    if counts(prop, v.prop) {
                        a.viols.push((i, v))
                    } else {
                        a.other_n += 1;
                        if a.other.len() < 5 {
                            a.other.push((i, v))
                        }
                    }
                }
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, work).unwrap();
        }
    });
    let mut a = acc.into_inner().unwrap();
    a.viols.sort_by_key(|x| x.0);
    let mut samples = vec![];
    if a.viols.is_empty() {
        for i in [0, n / 2] {
            trace_start();
            let _ = guarded(prop, || case(i));
            let mut t = trace_take();
            let l = t.len();
            t.truncate(25);
            samples.push(json!({"case": i, "seed": o.seed, "operations": l, "first_operations": t}));
        }
    }
    let j = |(i, v): &(u64, Viol)| json!({"prop": v.prop, "msg": v.msg, "case": i});
    write(
        &o.out,
        &json!({
            "cases": a.cases, "planned": n, "distinct": a.sigs.len(), "distinct_nontrivial": a.nontriv.len(),
            "distinct_states": a.states.len(), "stats": a.stats.0, "samples": samples, "rule": rule,
            "violations": a.viols.iter().take(10).map(j).collect::<Vec<_>>(),
            "other_violations": a.other.iter().map(j).collect::<Vec<_>>(), "other_count": a.other_n,
            "wall_s": t0.elapsed().as_secs_f64(),
        }),
    );
}

pub fn write(path: &str, v: &Value) {
    let s = serde_json::to_string_pretty(v).unwrap();
    if path.is_empty() {
        println!("{s}");
    } else {
        std::fs::write(path, s).unwrap();
    }
}
