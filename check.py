#!/usr/bin/env python3
"""Decides one property: check.py C07 [--tier quick|thorough] | --setup | --replay FILE

Builds the monitors it needs against /repo's working tree, runs them, and judges what they observed:
exit 0 held, exit 1 with a VIOLATION line broken, exit 2 no verdict (build failure, out of memory, nothing observed).
"""
import argparse, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
H = VERIF + "/harness"
TARGETS = VERIF + "/targets"
REPLAYS = VERIF + "/replays"
STATE = VERIF + "/state"
CORES = max(2, min(8, os.cpu_count() or 8))
TRIPLE = "x86_64-unknown-linux-gnu"

ASAN = "detect_leaks={leaks}:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_string_checks=1:hard_rss_limit_mb=6000"
TSAN = "halt_on_error=1:exitcode=78:report_thread_leaks=0:history_size=7"

# ---------------------------------------------------------------- what is built

def build_cmd(variant, engine):
    td = f"{TARGETS}/{variant}-{engine}"
    common = ["--offline", "--manifest-path", H + "/Cargo.toml", "--target-dir", td, "--no-default-features", "--features", engine, "--bin", engine]
    env = {}
    if variant == "native":
        return ["cargo", "build"] + common, env, f"{td}/debug/{engine}"
    if variant == "plain":
        return ["cargo", "build", "--profile", "plain"] + common, env, f"{td}/plain/{engine}"
    if variant == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        return ["cargo", "+nightly", "build", "--profile", "san", "--target", TRIPLE] + common, env, f"{td}/{TRIPLE}/san/{engine}"
    if variant == "tsan":
        env["RUSTFLAGS"] = "-Zsanitizer=thread"
        return ["cargo", "+nightly", "build", "-Zbuild-std", "--profile", "san", "--target", TRIPLE] + common, env, f"{td}/{TRIPLE}/san/{engine}"
    if variant == "miri":
        env["MIRI_SYSROOT"] = TARGETS + "/cache/miri"
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        # builds, and runs nothing
        return ["cargo", "+nightly", "miri", "run"] + common + ["--", "--noop", "1"], env, f"{td}/miri/{TRIPLE}/debug/{engine}"
    raise KeyError(variant)


_hash = None
def tree_hash():
    """what the binaries depend on"""
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        files = [REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/build.rs", H + "/Cargo.toml", H + "/Cargo.lock"]
        for d in (REPO + "/src", H + "/src", REPO + "/.cargo"):
            for r, ds, fs in os.walk(d):
                ds.sort()
                files += [os.path.join(r, f) for f in sorted(fs)]
        for f in files:
            if os.path.exists(f):
                h.update(f.encode() + b"\0" + hashlib.sha256(open(f, "rb").read()).digest())
        _hash = h.hexdigest()
    return _hash


class NoVerdict(Exception):
    pass

class CompileError(Exception):
    pass


def miri_sysroot():
    d = TARGETS + "/cache/miri"
    if os.path.isdir(d + "/lib"):
        return
    env = dict(os.environ, XDG_CACHE_HOME=TARGETS + "/cache")
    env.pop("MIRI_SYSROOT", None)
    r = subprocess.run(["cargo", "+nightly", "miri", "setup"], env=env, cwd=H, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if not os.path.isdir(d + "/lib"):
        raise NoVerdict("no Miri sysroot: " + r.stdout[-2000:])


def clean_env(extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_", "MIRI", "ASAN_", "TSAN_", "RUST_"))}
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env.update(extra)
    return env


def build(variant, engine):
    """binary for this engine, built from the tree as it is now"""
    cmd, env, out = build_cmd(variant, engine)
    td = f"{TARGETS}/{variant}-{engine}"
    stamp = td + "/lcc-stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == tree_hash():
        return out
    if variant == "miri":
        miri_sysroot()
    # cargo goes by modification times, which copying a tree does not preserve
    for p in glob.glob(f"{td}/**/.fingerprint", recursive=True):
        for d in glob.glob(p + "/lazy-clone-collections-*") + glob.glob(p + "/lcc-harness-*"):
            shutil.rmtree(d, ignore_errors=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    os.makedirs(td, exist_ok=True)
    if variant == "miri" and os.path.exists(out):
        os.remove(out)
    r = subprocess.run(cmd, env=clean_env(env), cwd=H, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=840)
    if r.returncode != 0 and not (variant == "miri" and os.path.exists(out)):
        raise CompileError(f"{variant}/{engine}: " + r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(tree_hash())
    return out


def build_all(units):
    """in parallel; the Miri sysroot first, if needed"""
    units = list(dict.fromkeys(units))
    if any(v == "miri" for v, _ in units):
        miri_sysroot()
    outs, errs = {}, []
    sem = threading.Semaphore(4)
    def go(u):
        with sem:
            try:
                outs[u] = build(*u)
            except BaseException as e:
                errs.append(e)
    ts = [threading.Thread(target=go, args=(u,)) for u in units]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return outs


# ---------------------------------------------------------------- what is run

class Job:
    """one process"""
    def __init__(self, variant, engine, args, time_s, env=None, flags=""):
        self.variant, self.engine, self.args, self.time_s, self.env, self.flags = variant, engine, args, time_s, env or {}, flags
        self.single = engine in ("ub", "threads")

    def argv(self, binary, extra):
        a = [str(x) for x in self.args] + [str(x) for x in extra]
        if self.variant == "miri":
            return ["cargo-miri", "runner", binary] + a
        return [binary] + a

    def environ(self):
        e = dict(self.env)
        if self.variant == "miri":
            e.update(MIRI_SYSROOT=TARGETS + "/cache/miri", MIRIFLAGS=("-Zmiri-disable-isolation " + self.flags).strip(), RUSTUP_TOOLCHAIN="nightly")
        if self.variant == "asan":
            e.setdefault("ASAN_OPTIONS", ASAN.format(leaks=1))
        if self.variant == "tsan":
            e.setdefault("TSAN_OPTIONS", TSAN)
        return clean_env(e)

    def name(self):
        return f"{self.engine} ({self.variant}{' ' + self.flags if self.flags else ''})"


def limits(variant):
    def f():
        os.setsid()
        if variant in ("native", "plain"):
            resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def spawn(job, binary, extra, timeout, log):
    """-> (rc or None for a timeout, seconds of processor time)"""
    with open(log, "wb") as f:
        p = subprocess.Popen(job.argv(binary, extra), env=job.environ(), cwd=H, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits(job.variant))
        t0 = time.time()
        cpu = 0.0
        while True:
            r = p.poll()
            if r is not None:
                return r, cpu
            cpu = cpu_of(p.pid) or cpu
            over = time.time() - t0 > timeout
            if over or os.path.getsize(log) > 50 << 20:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                return (None if over else 99), cpu
            time.sleep(0.05)


def cpu_of(pid):
    try:
        s = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return None


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read().decode("utf8", "replace")
    except OSError:
        return ""


def head_of_report(path):
    """the part of a log that says what is wrong"""
    try:
        s = open(path, "rb").read(8 << 20).decode("utf8", "replace")
    except OSError:
        return ""
    m = re.search(r"(error: Undefined Behavior|error: memory leaked|error: abnormal|error: the evaluated program|ERROR: (Address|Leak)Sanitizer|WARNING: ThreadSanitizer|has overflowed its stack|unsafe precondition|memory allocation of|corrupted|double free|free\(\): |malloc\(\)|panic in a destructor|panicked at)", s)
    return s[m.start():m.start() + 5000] if m else s[-3000:]


UB = re.compile(r"error: Undefined Behavior|Data race detected|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|unsafe precondition\(s\) violated|double free|free\(\): invalid|malloc\(\): |corrupted (size|double|unsorted|top)|munmap_chunk|corrupted")
LEAK = re.compile(r"error: memory leaked|ERROR: LeakSanitizer")
VAGUE = re.compile(r"error: unsupported operation|error: resource exhaustion|hard rss limit exhausted|out-of-memory|failed to allocate|Cannot allocate memory|FATAL: ThreadSanitizer|CHECK failed|ThreadSanitizer: CHECK")


class Result:
    def __init__(self, job):
        self.job, self.data, self.viol, self.note = job, None, None, None


def run_job(pid, job, binary, tag, only_ub):
    """only_ub: memory errors count, wrong answers and panics do not"""
    res = Result(job)
    d = f"{STATE}/{pid}-{tag}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out, log = d + "/out.json", d + "/log"
    extra = ["--out", out, "--state", d + "/case" if job.single else d]
    timeout = job.time_s * 2 + 60
    rc, cpu = spawn(job, binary, extra, timeout, log)
    rep = head_of_report(log)
    if os.path.exists(out):
        try:
            res.data = json.load(open(out))
        except ValueError:
            res.data = None
    soft = (res.data or {}).get("other_count", 0)
    def vi(msg, case, report=""):
        res.viol = dict(property=pid, engine=job.engine, variant=job.variant, flags=job.flags, env=job.env, args=[str(a) for a in job.args], case=case, message=msg, report=report[:5000])
    if res.data and res.data.get("violations"):
        v = res.data["violations"][0]
        vi(v["msg"], v.get("case"))
        # once more on its own, for the trace
        o2 = d + "/only.json"
        if v.get("case") is not None:
            spawn(job, binary, ["--out", o2, "--only", v["case"]], 90, d + "/only.log")
            try:
                res.viol["trace"] = json.load(open(o2)).get("trace", [])[-40:]
            except (OSError, ValueError):
                res.viol["trace"] = [l for l in tail(d + "/only.log").splitlines() if l.startswith("OP ")][-40:]
        return res
    if rc == 0 and res.data:
        return res
    last = []
    for f in ([d + "/case"] if job.single else sorted(glob.glob(d + "/w*"))):
        try:
            s = open(f).read().split()
            if s and s[-1] != "done":
                last.append(int(s[-1]))
        except (OSError, ValueError):
            pass
    if rc is None:
        # does a case not end?
        for c in last[:8]:
            factor = 400 if job.variant == "miri" else 1
            r2, cpu = spawn(job, binary, ["--out", d + "/only.json", "--only", c], 45 * (3 if factor > 1 else 1), d + "/only.log")
            if r2 is None and cpu > 30 and factor == 1 and not only_ub:
                vi(f"an operation does not end (case {c}: no end after {cpu:.0f} s of processor time)", c, tail(d + "/only.log", 1500))
                res.viol["trace"] = [l for l in tail(d + "/only.log", 20000).splitlines() if l.startswith("OP ")][-20:]
                return res
        res.note = f"{job.name()}: timed out"
        return res
    # crashed, or a sanitizer spoke
    if VAGUE.search(rep):
        res.note = f"{job.name()}: {VAGUE.search(rep).group(0)}"
        return res
    case = last[-1] if last else None
    if UB.search(rep):
        first = UB.search(rep)
        line = rep[first.start():].splitlines()[0]
        vi(f"{job.name()}: {line}", case, rep)
        return res
    if LEAK.search(rep):
        if soft:
            res.note = f"{job.name()}: leaks after unexpected panics"
            if res.data:
                return res
        else:
            vi(f"{job.name()}: memory leaked", None, rep)
        return res
    if rc == -signal.SIGKILL:
        res.note = f"{job.name()}: killed"
        return res
    if only_ub and (rc in (-signal.SIGABRT, 101, 134) or rc > 0):
        res.note = f"{job.name()}: ended with {rc}: {rep[:300]}"
        return res
    if rc < 0 or rc in (134, 139) or "abnormal termination" in rep or "the evaluated program" in rep:
        # which of the running cases was it?
        culprit = None
        for c in last[:8]:
            r2, _ = spawn(job, binary, ["--out", d + "/only.json", "--only", c], 120, d + "/only.log")
            if r2 is not None and r2 < 0 and r2 != -signal.SIGKILL:
                culprit = c
                break
        sig = signal.Signals(-rc).name if rc < 0 else str(rc)
        if culprit is None and rc == -signal.SIGABRT and "memory allocation of" in rep:
            res.note = f"{job.name()}: out of memory"
            return res
        vi(f"{job.name()}: crashed with {sig}: {rep.splitlines()[0] if rep.strip() else ''}", culprit if culprit is not None else case, rep)
        res.viol["trace"] = [l for l in tail(d + "/only.log", 20000).splitlines() if l.startswith("OP ")][-20:]
        return res
    res.note = f"{job.name()}: ended with {rc} and no result: {rep[:300]}"
    return res


# ---------------------------------------------------------------- the plans

def plan(pid, tier, seed):
    th = tier == "thorough"
    J = []
    def eng(engine, cases, t, variant="native", **kw):
        ct = (10**9 if th else cases)
        tt = (t * 12 if th else 3 * t)
        J.append([Job(variant, engine, ["--prop", pid, "--tier", tier, "--seed", seed, "--threads", CORES, "--cases", ct, "--time", tt], tt, **kw)])
    def ubs(variant, n, t, flags="", panics=0, ops=60, first=0, env=None, seed2=None, kind=0):
        t = t * (8 if th else 1)
        return [Job(variant, "ub", ["--prop", pid, "--seed", seed2 or seed, "--from", first + i, "--stride", STRIDE, "--ops", ops, "--time", t, "--panics", panics, "--kind", kind, "--samples", 0 if i or variant == "miri" else 1], t, flags=flags, env=env) for i in range(n)]
    def ths(variant, n, t, first, cold=0):
        # cold: many short processes, in which threads meet whatever is kept per process for the first time
        t = t * (8 if th and not cold else 1)
        n = n * (8 if th and cold else 1)
        return [Job(variant, "threads", ["--prop", pid, "--seed", seed + 7000 * cold, "--from", first + i, "--stride", STRIDE, "--cold", cold, "--time", t, "--samples", 1 if variant == "native" and not i else 0], t, flags=f"-Zmiri-seed={seed * 64 + i}" + (" -Zmiri-tree-borrows" if i == 1 else "") if variant == "miri" else "") for i in range(n)]
    def kinds(kind, t=5, n=6):
        # the same histories as for C15 and C16, over elements of many layouts; here wrong answers count
        t = t * (12 if th else 1)
        J.append([Job("plain", "ub", ["--prop", pid, "--seed", seed + 3000, "--from", i, "--stride", STRIDE, "--ops", 150, "--time", t, "--answers", 1, "--kind", kind, "--samples", 0 if i else 1], t) for i in range(n)])
    STRIDE = 61
    if pid == "C01":
        eng("maps", 200_000, 25); kinds(1)
    elif pid in ("C02", "C05", "C06", "C17"):
        eng("maps", 90_000, 15); eng("sets", 90_000, 12); eng("stacks", 90_000, 8)
        if pid == "C17":
            eng("partial", 150_000, 8)
        if pid == "C02":
            kinds(0)
        if pid == "C05":
            J.append(ubs("asan", 8, 8, ops=120, seed2=seed + 4000))
    elif pid == "C03":
        eng("maps", 110_000, 18); eng("sets", 110_000, 14)
    elif pid == "C04":
        eng("maps", 80_000, 15); eng("sets", 80_000, 12); eng("stacks", 80_000, 8); eng("cost", 1200, 8)
    elif pid == "C07":
        eng("maps", 150_000, 20); eng("sets", 120_000, 12)
    elif pid == "C08":
        eng("maps", 120_000, 20)
    elif pid in ("C09", "C10"):
        eng("sets", 90_000 if pid == "C09" else 200_000, 25)
        if pid == "C10":
            kinds(2)
    elif pid == "C11":
        eng("stacks", 400_000, 25); kinds(3)
    elif pid == "C12":
        n = 3 * 30
        eng("deep", n, 14); eng("deep", n, 14, variant="plain")
        if not th:
            for j in J:  # its own number of cases
                a = j[0].args
                k = a.index("--cases")
                del a[k:k + 2]
    elif pid == "C13":
        eng("serded", 60_000, 20)
    elif pid == "C14":
        J.append([Job("native", "auto", ["--prop", pid], 5)])
        J.append(ths("native", 4, 12, 8))
        J.append(ths("tsan", 4, 16, 16))
        short = ths("tsan", 36, 1, 0, cold=1)
        J += [short[i:i + 9] for i in range(0, len(short), 9)]
        J.append(ths("miri", 8, 35, 32))
    elif pid == "C15":
        J.append([Job("miri", "auto", ["--prop", pid], 60)])
        J.append(ubs("miri", 6, 40) + ubs("miri", 2, 40, "-Zmiri-tree-borrows", first=32))
        J.append(ubs("asan", 8, 12, ops=120, seed2=seed + 1000))
        # maps of three levels, whose branches are split, merged and rotated too
        J.append(ubs("miri", 6, 45, ops=10, kind=4, seed2=seed + 5000) + ubs("miri", 2, 45, "-Zmiri-tree-borrows", first=32, ops=10, kind=4, seed2=seed + 5000))
        J.append(ubs("asan", 8, 6, ops=60, kind=4, seed2=seed + 6000))
    elif pid == "C16":
        eng("panics", 250_000, 14)
        J.append(ubs("asan", 8, 8, panics=1, env={"ASAN_OPTIONS": ASAN.format(leaks=0)}, ops=90))
        J.append(ubs("miri", 6, 25, "-Zmiri-ignore-leaks", panics=1, seed2=seed + 2000) + ubs("miri", 2, 25, "-Zmiri-ignore-leaks -Zmiri-tree-borrows", panics=1, first=32, seed2=seed + 2000))
        J.append(ubs("asan", 8, 5, panics=1, env={"ASAN_OPTIONS": ASAN.format(leaks=0)}, ops=60, kind=4, seed2=seed + 6000))
        J.append(ubs("miri", 6, 30, "-Zmiri-ignore-leaks", panics=1, ops=10, kind=4, seed2=seed + 5000) + ubs("miri", 2, 30, "-Zmiri-ignore-leaks -Zmiri-tree-borrows", panics=1, first=32, ops=10, kind=4, seed2=seed + 5000))
    else:
        raise SystemExit(f"no check for {pid}")
    return J


ALL_UNITS = [("native", e) for e in ("maps", "sets", "stacks", "cost", "deep", "partial", "serded", "panics")] + [("plain", "deep"), ("plain", "ub"), ("asan", "ub"), ("miri", "ub"), ("native", "auto"), ("miri", "auto"), ("native", "threads"), ("tsan", "threads"), ("miri", "threads")]
ASSUME = [
    "holds on the executions observed, not on all executions",
    "std's collections, rustc and the sanitizers are right",
]


def known():
    """-> {property: [(text, signature regex)]}"""
    k = {}
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) signature=/(.*)/ (.*)", l)
            if m:
                k.setdefault(m.group(1), []).append((m.group(3).strip(), re.compile(m.group(2))))
    return k


def decide(pid, tier, seed):
    t0 = time.time()
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(STATE, exist_ok=True)
    groups = plan(pid, tier, seed)
    try:
        bins = build_all([(j.variant, j.engine) for g in groups for j in g])
    except CompileError as e:
        return no_verdict(pid, tier, seed, t0, "does not build: " + str(e))
    t_build = time.time() - t0
    results, viol = [], None
    for gi, g in enumerate(groups):
        rs = [None] * len(g)
        def go(i, j):
            try:
                rs[i] = run_job(pid, j, bins[(j.variant, j.engine)], f"{gi}-{i}", only_ub=(pid == "C15" or (pid == "C05" and j.engine == "ub")))
            except Exception as e:
                r = Result(j)
                r.note = f"{j.name()}: {e!r}"
                rs[i] = r
        ts = [threading.Thread(target=go, args=(i, j)) for i, j in enumerate(g)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        results += rs
        if any(r.viol for r in rs):
            break
    kf = known().get(pid, [])
    seen_known = []
    for r in results:
        if r.viol:
            text = r.viol["message"] + "\n" + r.viol.get("report", "")
            hit = next((t for t, rx in kf if rx.search(text)), None)
            if hit:
                seen_known.append(hit)
            elif not viol:
                viol = r.viol
    for t, _ in kf:
        print(f"KNOWN-FINDING: property={pid} {t}")
    notes = [r.note for r in results if r.note]
    got = [r for r in results if r.data]
    evidence(pid, tier, seed, t0, t_build, results, 1 if viol else 0, notes)
    for n in notes:
        print("note:", n)
    if viol:
        path = f"{REPLAYS}/{pid}-{os.getpid()}.json"
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        print(viol["message"][:600])
        for l in viol.get("trace", [])[-12:]:
            print("   ", l[:200])
        if viol.get("report"):
            print("\n".join(viol["report"].splitlines()[:14]))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if len(got) < len(results) or any(r.data.get("cases", 0) == 0 for r in got):
        print(f"NO VERDICT property={pid}: a monitor gave no result or observed nothing")
        return 2
    print(f"held: property={pid} " + ", ".join(f"{r.job.name()}: {r.data['cases']} cases" for r in got[:6]) + f" in {time.time() - t0:.0f} s")
    return 0


def no_verdict(pid, tier, seed, t0, why):
    print(f"NO VERDICT property={pid}: {why}")
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=dict(evaluations=0, distinct_nontrivial=0, rule="nothing could be run", samples=[why[:500]]), assumptions=ASSUME, wall_s=time.time() - t0, violations=0)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    return 2


def evidence(pid, tier, seed, t0, t_build, results, nviol, notes):
    ev, nt, states = 0, 0, 0
    stats, samples, rules, per = {}, [], [], []
    others = 0
    for r in results:
        d = r.data
        if not d:
            per.append(dict(monitor=r.job.name(), result=r.note or "stopped by a violation"))
            continue
        ev += d.get("cases", 0)
        nt += d.get("distinct_nontrivial", 0)
        states += d.get("distinct_states", 0)
        others += d.get("other_count", 0)
        if d.get("rule") and d["rule"] not in rules:
            rules.append(d["rule"])
        for k, v in d.get("stats", {}).items():
            k2 = f"{r.job.engine}_{r.job.variant}_{k}" if r.job.engine in ("ub", "threads") else f"{r.job.engine}_{k}"
            stats[k2] = max(stats.get(k2, 0), v) if k.startswith("max_") else stats.get(k2, 0) + v
        if len(samples) < 6:
            samples += d.get("samples", [])[:2]
        per.append(dict(monitor=r.job.name(), cases=d.get("cases"), seconds=round(d.get("wall_s", 0), 2)))
    cov = dict(evaluations=ev, distinct_nontrivial=nt, rule="; ".join(rules), samples=samples or ["none"], observed=stats, monitors=per, build_s=round(t_build, 1))
    if states:
        cov["distinct_contents_seen"] = states
    if notes:
        cov["notes"] = notes
    if others:
        cov["violations_of_other_properties_seen"] = others
    e = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(e, f, indent=1)


def replay(path):
    v = json.load(open(path))
    job = Job(v["variant"], v["engine"], v["args"], 600, env=v.get("env"), flags=v.get("flags", ""))
    b = build(job.variant, job.engine)
    extra = ["--only", v["case"]] if v.get("case") is not None else []
    os.makedirs(STATE, exist_ok=True)
    log = STATE + "/replay.log"
    rc, _ = spawn(job, b, extra + ["--out", STATE + "/replay.json"], 600, log)
    print(tail(log, 8000))
    if os.path.exists(STATE + "/replay.json"):
        d = json.load(open(STATE + "/replay.json"))
        print(json.dumps(d.get("violations"), indent=1))
        if d.get("violations"):
            return 1
    return 1 if rc else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.setup:
        os.makedirs(TARGETS, exist_ok=True)
        build_all(ALL_UNITS)
        return 0
    if a.replay:
        return replay(a.replay)
    try:
        return decide(a.property, a.tier, a.seed)
    except NoVerdict as e:
        return no_verdict(a.property, a.tier, a.seed, time.time(), str(e))
    except subprocess.TimeoutExpired as e:
        return no_verdict(a.property, a.tier, a.seed, time.time(), str(e))


if __name__ == "__main__":
    sys.exit(main())
