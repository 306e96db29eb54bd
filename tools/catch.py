#!/usr/bin/env python3
"""catch.py [ID...]: applies each planted bug in turn and runs its property's check."""
import sys, os, subprocess, json, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ids = sys.argv[1:] or sorted(os.listdir(f"{ROOT}/seeded"))
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
for i in ids:
    d = f"{ROOT}/seeded/{i}"; prop = json.load(open(f"{d}/meta.json"))["property"]
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(i, prop, "DOES NOT APPLY", a.stderr); continue
    t = time.time()
    try: r = sh(f"{ROOT}/check.sh {prop}", env=env, timeout=1500)
    finally: sh("git -C /repo checkout -- .")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, prop, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", f"{time.time()-t:.0f}s", "; ".join(l for l in r.stdout.splitlines() if not l.startswith("KNOWN"))[:400], r.stderr[-300:], flush=True)
