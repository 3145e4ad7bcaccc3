#!/usr/bin/env python3
"""plant.py ID... | --all: builds /verif/seeded/<id> from tools/plants/<id>.py and confirms it.

A plant file defines: property, needs, breaks, edits = [(file, old, new), ...] and demo (the text of a
main.rs) or script (the text of a demo.sh). The patch is made and confirmed in a scratch copy of /repo:
it builds, all stable tests pass, and the demonstration fails with it and passes without it."""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
PL = "/verif/tools/plants"
SC = "/tmp/plant-scratch"
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
lazy-clone-collections = { path = "$repo"%(features)s }
%(deps)s
EOF
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR="$d/target"
cd "$d" && %(run)s
'''
RUNS = {
    "native": "timeout 250 cargo run --offline --quiet",
    "release": "timeout 250 cargo run --offline --quiet --release",
    "miri": 'XDG_CACHE_HOME="$d/cache" RUSTUP_TOOLCHAIN=nightly timeout 280 cargo miri run --offline --quiet',
    "tsan": 'RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread" TSAN_OPTIONS="halt_on_error=1 exitcode=66" timeout 280 cargo run --offline --quiet -Zbuild-std --target x86_64-unknown-linux-gnu',
}
env = dict(os.environ, RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", PROPTEST_RNG_SEED="20240229")

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def load(i):
    s = importlib.util.spec_from_file_location("p", f"{PL}/{i}.py"); m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m); return m

def scratch():
    if not os.path.isdir(SC):
        shutil.copytree("/repo", SC, symlinks=True)
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target", SC)

def apply(p):
    for f, old, new in p.edits:
        path = f"{SC}/{f}"; t = open(path).read()
        if t.count(old) != 1:
            return f"edit in {f}: {t.count(old)} matches for {old[:60]!r}"
        open(path, "w").write(t.replace(old, new))

def stable_ok():
    sh("touch src/lib.rs", SC)
    r = sh("cargo build --offline 2>&1 && cargo test --no-run --offline --features serde,serde_test 2>&1", SC)
    if r.returncode: return "does not build:\n" + r.stdout[-1500:]
    r = sh("cargo test --offline --no-fail-fast --features serde,serde_test -- --test-threads 8 > /tmp/plant-test.log 2>&1; python3 /opt/vp/results.py /tmp/plant.json cargo:/tmp/plant-test.log", SC)
    res = json.load(open("/tmp/plant.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [b for b in base if b not in res["passed"]]
    if bad: return "tests fail: " + ", ".join(bad[:6])

def main(i, quick):
    p = load(i); out = f"/verif/seeded/{i}"
    scratch()
    e = apply(p)
    if e: return e
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out): os.unlink(f"{out}/{f}")
    open(f"{out}/patch.diff", "w").write(subprocess.check_output(["git", "-C", SC, "diff"], text=True))
    if hasattr(p, "script"):
        open(f"{out}/demo.sh", "w").write(p.script)
    else:
        feats = getattr(p, "features", "")
        open(f"{out}/demo.sh", "w").write(DEMO % dict(features=f", features = [{feats}]" if feats else "",
            deps=getattr(p, "deps", ""), run=RUNS[getattr(p, "run", "native")]))
        open(f"{out}/main.rs", "w").write(p.demo.lstrip())
    json.dump({"property": p.property, "needs": p.needs, "what_it_breaks": p.breaks}, open(f"{out}/meta.json", "w"), indent=1)
    if not quick:
        e = stable_ok()
        if e: shutil.rmtree(out); return e
    w = sh(f"bash {out}/demo.sh", SC)
    c = sh(f"bash {out}/demo.sh", "/repo")
    if c.returncode != 0: shutil.rmtree(out); return "demo fails on the unchanged tree:\n" + c.stdout[-2500:]
    if w.returncode == 0: shutil.rmtree(out); return "demo passes with the patch"
    return None if "error: could not compile" not in w.stdout else "demo does not compile with the patch (fine only if that is the point):\n" + w.stdout[-800:]

if __name__ == "__main__":
    a = sys.argv[1:]; quick = "--quick" in a; a = [x for x in a if not x.startswith("--")]
    if "--all" in sys.argv: a = sorted(f[:-3] for f in os.listdir(PL) if f.endswith(".py"))
    for i in a:
        e = main(i, quick)
        print(i, "ok" if e is None else "NO: " + e, flush=True)
