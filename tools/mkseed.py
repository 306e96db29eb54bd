#!/usr/bin/env python3
"""mkseed.py SPECFILE [ID...]: makes /verif/seeded/<id> from a spec and checks the demo on both trees.
A spec file defines SEEDS: dicts with id, property, edits [(file, old, new)], needs, breaks, kind (lite|core), main."""
import sys, os, subprocess, json, shutil, tempfile, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
want = sys.argv[2:]
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
for s in m.SEEDS:
    if want and s["id"] not in want: continue
    d = f"{ROOT}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    kind = s.get("kind", "lite")
    src = f"{ROOT}/tools/demo_{kind}"
    for f in os.listdir(src):
        if f == "head.rs": continue
        if os.path.isdir(f"{src}/{f}"):
            shutil.rmtree(f"{d}/{f}", ignore_errors=True); shutil.copytree(f"{src}/{f}", f"{d}/{f}")
        else: shutil.copy(f"{src}/{f}", d)
    open(f"{d}/main.rs", "w").write(open(f"{src}/head.rs").read() + s["main"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    try:
        for f, old, new in s["edits"]:
            p = f"/repo/{f}"; t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        bad = sh(f"bash {d}/demo.sh", cwd="/repo")
        t = sh("bash /opt/vp/build.sh") if kind == "lite" and "--fast" not in sys.argv else None
        tests = "-"
        if t is not None:
            assert t.returncode == 0, t.stdout + t.stderr
            r = sh("bash /opt/vp/test.sh /tmp/out.json"); tests = r.returncode
            res = json.load(open("/tmp/out.json")); tests = res if len(str(res)) < 300 else str(res)[:300]
    finally:
        sh("git -C /repo checkout -- .")
    good = sh(f"bash {d}/demo.sh", cwd="/repo")
    ok = good.returncode == 0 and bad.returncode != 0
    print(s["id"], "OK" if ok else "FAIL", "clean", good.returncode, "patched", bad.returncode, tests)
    print("   patched:", (bad.stdout + bad.stderr).strip()[-300:])
    if good.returncode: print("   clean:", (good.stdout + good.stderr).strip()[-1500:])
