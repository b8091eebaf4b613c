#!/usr/bin/env python3
"""tools/confirm.py [--tests] [--check PROP[,..]] ID...: applies each seeded change to /repo, runs demo,
(tests,) checks; undoes it.  Prints one line per change."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tests = "--tests" in args
nocheck = "--nocheck" in args
ids = [a for a in args if not a.startswith("--")]
def run(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for i in ids:
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    res = []
    st = run("git -C /repo status --porcelain").stdout.strip()
    assert not st, "repo dirty: " + st
    r = run(f"bash {d}/demo.sh", cwd="/repo")
    res.append(f"demo-clean={r.returncode}")
    if r.returncode: print(r.stdout[-1500:])
    a = run(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(i, "DOES NOT APPLY", a.stdout); continue
    try:
        if tests:
            b = run("bash /opt/vp/build.sh")
            res.append(f"build={b.returncode}")
            if b.returncode: print(b.stdout[-3000:])
            run("bash /opt/vp/test.sh /tmp/seed_out.json")
            o = json.load(open("/tmp/seed_out.json"))
            passed = set(o.get("passed", [])) if isinstance(o, dict) else set()
            bad = [t for t in base if t not in passed]
            res.append(f"tests-broken={len(bad)}")
            if bad: print(bad[:5])
        r = run(f"bash {d}/demo.sh", cwd="/repo")
        res.append(f"demo-patched={r.returncode}")
        if r.returncode == 3: print("DEMO BUILD?", r.stdout[-2000:])
        if not nocheck:
            c = run(f"./check {prop} quick", cwd=V)
            hit = f"VIOLATION property={prop}" in c.stdout
            res.append(f"check={c.returncode} caught={'YES' if c.returncode == 1 and hit else 'NO'}")
            if c.returncode not in (0, 1): print(c.stdout[-2500:])
            if hit: res.append([l for l in c.stdout.splitlines() if l.startswith(f'[{prop}]') and 'TLC' not in l][0][:160])
    finally:
        run("git -C /repo checkout -- .")
    print(i, *res, flush=True)
