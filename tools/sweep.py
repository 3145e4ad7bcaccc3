#!/usr/bin/env python3
"""sweep.py LANES: runs the native engines against every survivor of mutate.py (in copies, not in /repo), writes /tmp/mut/swept.jsonl"""
import json, os, re, shutil, subprocess, sys, threading, time
W = "/tmp/mut"
PLAN = [("maps", "C01"), ("maps", "C03"), ("sets", "C10"), ("sets", "C09"), ("stacks", "C11"), ("maps", "C06"), ("maps", "C07"), ("maps", "C08"), ("serded", "C13"), ("cost", "C04"), ("maps", "C04"), ("maps", "C02"), ("maps", "C05"), ("sets", "C03"), ("sets", "C06"), ("sets", "C07"), ("sets", "C04"), ("sets", "C17"), ("stacks", "C17"), ("partial", "C17"), ("maps", "C17"), ("stacks", "C04"), ("stacks", "C05"), ("stacks", "C06"), ("panics", "C16"), ("deep", "C12"), ("threads", "C14"), ("auto", "C15")]
def sh(cmd, cwd, t, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **(env or {})), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None, ""
lock = threading.Lock()
claimed = set()
def done():
    try:
        return {json.loads(l)["n"] for l in open(W + "/swept.jsonl")}
    except OSError:
        return set()
def nxt():
    with lock:
        try:
            L = [json.loads(l) for l in open(W + "/survivors.jsonl")]
        except OSError:
            L = []
        for m in L:
            if m["n"] not in claimed:
                claimed.add(m["n"])
                return m
def lane(k):
    d = f"{W}/sw{k}"
    if not os.path.exists(d):
        os.makedirs(d)
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
    shutil.rmtree(d + "/harness", ignore_errors=True)
    shutil.copytree("/verif/harness", d + "/harness", ignore=shutil.ignore_patterns("target*"))
    t = open(d + "/harness/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"')
    open(d + "/harness/Cargo.toml", "w").write(t)
    idle = 0
    while True:
        m = nxt()
        if not m:
            idle += 1
            if os.path.exists(W + "/stop") or idle > 400:
                return
            time.sleep(5)
            continue
        idle = 0
        src = open("/repo/" + m["file"]).read()
        lines = src.split("\n")
        if lines[m["line"] - 1] != m["old"]:
            continue
        lines[m["line"] - 1] = m["new"]
        open(f"{d}/repo/{m['file']}", "w").write("\n".join(lines))
        t0 = time.time()
        r = dict(m, build=0, caught=[], other=[])
        first = {"src/stack.rs": ["stacks", "deep", "panics"], "src/avl/avl_set.rs": ["sets"], "src/btree/btree_set.rs": ["sets"], "src/btree/core.rs": ["maps"], "src/btree/fixed.rs": ["maps"]}.get(m["file"], ["maps"])
        order = first + [e for e in ("sets", "serded", "panics", "cost", "partial", "auto") if e not in first and not (m["file"] == "src/stack.rs" and e in ("sets", "serded", "cost"))]
        for e in order:
            rc, o = sh(f"cargo build --offline --no-default-features --features {e} --bin {e}", d + "/harness", 900, dict(CARGO_BUILD_JOBS="3", RUSTFLAGS="-Awarnings", CARGO_PROFILE_DEV_INCREMENTAL="true"))
            if rc != 0:
                r["build"] = rc
                break
            for e2, p in PLAN:
                if e2 != e:
                    continue
                st = d + "/state"
                shutil.rmtree(st, ignore_errors=True)
                os.makedirs(st)
                out = d + "/out.json"
                if os.path.exists(out):
                    os.remove(out)
                a = f"--prop {p} --tier quick --seed 1 --threads 2 --cases {30 if e == 'deep' else 1000000} --time 4 --out {out} --state {st}"
                rc, o = sh(f"ulimit -v 12000000; {d}/harness/target/debug/{e} {a}", d, 60)
                try:
                    j = json.load(open(out))
                except (OSError, ValueError):
                    j = None
                if j is None:
                    r["caught"].append(f"{e}/{p}: {'hang' if rc is None else 'crash %s' % rc} {o[-200:]}")
                    break
                if j.get("violations"):
                    r["caught"].append(f"{e}/{p}: {j['violations'][0]['msg'][:150]}")
                    break
                for v in j.get("other_violations", [])[:2]:
                    r["other"].append(f"{e}/{p}->{v['prop']}: {v['msg'][:120]}")
            if r["caught"]:
                break
        r["t"] = round(time.time() - t0)
        open(f"{d}/repo/{m['file']}", "w").write(src)
        with lock:
            open(W + "/swept.jsonl", "a").write(json.dumps(r) + "\n")
claimed |= done()
ts = [threading.Thread(target=lane, args=(k,)) for k in range(int(sys.argv[1]))]
[t.start() for t in ts]
[t.join() for t in ts]
