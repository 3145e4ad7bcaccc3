#!/usr/bin/env python3
"""mutate.py gen|run [N] [LANES]: systematic one-token changes, to find out which the crate's own tests let through.
Survivors go to /tmp/mut/survivors.jsonl; `sweep` (tools/sweep.py) then runs the engines against each."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
REPO, W = "/repo", "/tmp/mut"
FILES = ["src/stack.rs", "src/avl.rs", "src/avl/avl_set.rs", "src/btree.rs", "src/btree/btree_set.rs", "src/btree/core.rs", "src/btree/fixed.rs", "src/lib.rs"]
OPS = [
    (r"(?<![=!<>+\-*/|&])==(?!=)", "!="), (r"!=", "=="), (r"(?<=\s)<(?=\s)", "<="), (r"(?<=\s)>(?=\s)", ">="), (r"(?<=\s)<=(?=\s)", "<"), (r"(?<=\s)>=(?=\s)", ">"),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+=", "-="), (r"-=", "+="), (r"(?<=\w) \+ (?=\w)", " - "), (r"(?<=\w) - (?=\w)", " + "), (r"&&", "||"), (r"\|\|(?! \w+\.?\w*\()", "&&"),
    (r"(?<=[\s(])!(?=[a-z(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bLess\b", "Greater"), (r"\bGreater\b", "Less"), (r"\bEqual\b", "Greater"),
    (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bleft_ht\b", "right_ht"), (r"\bright_ht\b", "left_ht"), (r"\bIncluded\b", "Excluded"), (r"\bExcluded\b", "Included"),
    (r"\.next\(\)", ".next_back()"), (r"\.next_back\(\)", ".next()"), (r"\bmax\b", "min"), (r"\bmin\b", "max"), (r"\bpush_front\b", "push_back"), (r"\bpush_back\b", "push_front"), (r"\bpop_front\b", "pop_back"), (r"\bpop_back\b", "pop_front"),
    (r"\bself\.cmp\(other\)", "other.cmp(self)"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"\bMIN_OCCUPANCY\b", "(MIN_OCCUPANCY - 1)"), (r"\bMAX_OCCUPANCY\b", "(MAX_OCCUPANCY - 1)"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\bswap\((\w+), ", None), (r"\bfront\b", "back"), (r"\bback\b", "front"), (r"\b_lf\b", "_rt"), (r"\brot_lf\b", "rot_rt"), (r"\brot_rt\b", "rot_lf"), (r"\bint_rem_greatest\b", "int_rem_least"),
    (r"\blet (\w+) = self\.len\b", None), (r"\bother\b", "self"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bN\b(?= [-+])", "1"), (r"\.take\(\)", ".clone()"), (r"\bif (?!let)([^{]+) \{", "if false {"), (r"\bif (?!let)([^{]+) \{", "if true {"), (r"\.rev\(\)", ""), (r"\bsize\b", "0"), (r"\blen\b(?!\()", "0"), (r"\bidx\b", "(idx + 1)"),
]
STMT = re.compile(r"^\s+(?!let |use |return|pub |fn |type |const |//|#|impl |break|continue|\}|\)|where)[^;]*;\s*$")
def cut(lines):
    """lines that count: no tests, comments, attributes, uses"""
    ok, test, depth = [], False, 0
    skip_from = None
    for i, l in enumerate(lines):
        if re.match(r"#\[cfg\(test\)\]", l) and i + 1 < len(lines) and re.match(r"mod ", lines[i + 1]):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "///", "impl", "pub fn", "fn ", "where", "assert", "debug_assert", "macro_rules", "chk_")):
            continue
        ok.append(i)
    return ok
def gen():
    out = []
    for f in FILES:
        lines = open(f"{REPO}/{f}").read().split("\n")
        for i in cut(lines):
            l = lines[i]
            code = l.split("//")[0]
            for pat, rep in OPS:
                if rep is None:
                    continue
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    out.append((f, i, l, new))
            if STMT.match(code) and code.count("(") == code.count(")"):
                out.append((f, i, l, "// " + l))
    random.Random(7).shuffle(out)
    json.dump(out, open(W + "/mutants.json", "w"))
    print(len(out))
def sh(cmd, cwd, t, env=None):
    e = dict(os.environ, **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None, ""
def run(lo, hi, lanes):
    muts = json.load(open(W + "/mutants.json"))[lo:hi]
    q = queue.Queue()
    for n, m in enumerate(muts):
        q.put((lo + n, m))
    lock = threading.Lock()
    cnt = {"nocompile": 0, "killed": 0, "survived": 0, "hang": 0}
    def lane(k):
        d = f"{W}/lane{k}"
        if not os.path.exists(d):
            shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
        # libraries have one name per package id, so a lane's own target
        while True:
            try:
                n, (f, i, old, new) = q.get_nowait()
            except queue.Empty:
                return
            src = open(f"{REPO}/{f}").read()
            lines = src.split("\n")
            assert lines[i] == old
            lines[i] = new
            open(f"{d}/{f}", "w").write("\n".join(lines))
            env = dict(CARGO_BUILD_JOBS="2", RUSTFLAGS="-Awarnings", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0", PROPTEST_RNG_SEED="20240229")
            rc, o = sh("cargo test --no-run --offline --features serde,serde_test", d, 300, env)
            if rc != 0:
                r = "nocompile"
            else:
                # the listed tests
                rc, o = sh("cargo test --offline --features serde,serde_test -- --test-threads 2", d, 150, env)
                r = "hang" if rc is None else "killed" if rc else "survived"
            sh("git -C /repo show HEAD:x >/dev/null 2>&1; find . -path ./target -prune -o -name '*proptest-regressions*' -print | xargs -r rm -rf", d, 20)
            open(f"{d}/{f}", "w").write(src)
            with lock:
                cnt[r] += 1
                if r == "survived":
                    open(W + "/survivors.jsonl", "a").write(json.dumps(dict(n=n, file=f, line=i + 1, old=old, new=new)) + "\n")
                open(W + "/progress", "w").write(json.dumps(cnt))
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]
if sys.argv[1] == "gen":
    gen()
else:
    run(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]))
