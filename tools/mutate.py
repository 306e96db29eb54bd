#!/usr/bin/env python3
"""mutate.py SPEC.py [NAME...]: runs checks on changed copies of /repo (never /repo itself).
SPEC.py defines M = {name: (property or list of properties, [(file under akasa-core/src, old, new), ...])}."""
import sys, os, subprocess, shutil, json, threading, queue, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get("W", "2")); SEED = os.environ.get("SEED", "1")
ns = {}; exec(open(sys.argv[1]).read(), ns); M = ns["M"]
names = sys.argv[2:] or list(M)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prep(d):
    os.makedirs(f"{d}/sim", exist_ok=True); os.makedirs(f"{d}/v/evidence", exist_ok=True); os.makedirs(f"{d}/v/replays", exist_ok=True)
    sh(f"rsync -a --delete --exclude /target {ROOT}/sim/ {d}/sim/")
    if not os.path.isdir(f"{d}/sim/target"): sh(f"cp -a {ROOT}/sim/target {d}/sim/target")
    for c in ("akasim/Cargo.toml", "lite/src/main.rs", "store/src/main.rs"):
        p = f"{d}/sim/{c}"; s = open(p).read(); open(p, "w").write(s.replace("/repo/akasa-core", f"{d}/repo/akasa-core"))
    [shutil.copy(f"{ROOT}/{x}", f"{d}/v/") for x in ("known-findings.txt", "properties.jsonl")]
q = queue.Queue(); [q.put(n) for n in names]
def work(k):
    d = f"/tmp/mut{k}"; prep(d)
    while True:
        try: n = q.get_nowait()
        except queue.Empty: return
        props, edits = M[n]
        sh(f"mkdir -p {d}/repo && rsync -a --delete --exclude .git --exclude /target /repo/ {d}/repo/")
        bad = None
        for f, old, new in edits:
            p = f"{d}/repo/akasa-core/src/{f}"; s = open(p).read()
            if s.count(old) < 1: bad = f"no match in {f}: {old[:50]!r}"; break
            open(p, "w").write(s.replace(old, new, 1)); os.utime(p)
        if bad: print(f"{n}: {bad}", flush=True); continue
        for prop in props if isinstance(props, list) else [props]:
            suite = {"C18": "lite", "C19": "lite", "C22": "store"}.get(prop, "akasim")
            b = sh(f"cd {d}/sim && cargo build --offline -q -p {suite}")
            if b.returncode: print(f"{n}: does not build\n{b.stderr[:1500]}", flush=True); break
            t = time.time()
            r = sh(f"{d}/sim/target/x86_64-unknown-linux-gnu/debug/{suite} check {prop} --seed {SEED}", env=dict(os.environ, VERIF_ROOT=f"{d}/v", VERIF_SEED=SEED))
            vs = sorted({l.strip().split(":")[0] for l in r.stdout.splitlines() if l.startswith(f"  {prop}.") })
            runs = [l for l in r.stdout.splitlines() if l.startswith(f"{prop}:")]
            print(f"{n} {prop}: {'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode} {time.time()-t:.0f}s {vs} {runs[-1:]}", flush=True)
            sh(f"rm -f {d}/v/replays/*")
ts = [threading.Thread(target=work, args=(k,)) for k in range(min(W, len(names)))]
[t.start() for t in ts]; [t.join() for t in ts]
