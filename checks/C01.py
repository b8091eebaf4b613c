"""C01: memoised queries (spec/Memo.tla, harness/memo)."""
import json
from vf import *

INV = ["Pure", "AnsweredIsCached", "OncePerDb", "Quiet", "HeadsActive", "CycleOnlyIfCyclic"]


def run(c):
    b = harness_bin("memo")
    jobs = [("2 nodes, 2 databases, exhaustive", dict(N=2, Dbs=2, MaxSucc=2, MaxQueries=3, Kinds=set("bsm"), Sorted=True), {}),
            ("3 nodes, exhaustive", dict(N=3, Dbs=1, MaxSucc=2, MaxQueries=1, Kinds={"b"}, Sorted=True), {}),
            ("4 nodes, random", dict(N=4, Dbs=2, MaxSucc=3, MaxQueries=6, Kinds=set("bm"), Sorted=False),
             dict(simulate=c.pick(400, 4000), depth=160, seed=c.seed))]
    if c.thorough:
        jobs[1] = ("3 nodes, exhaustive", dict(N=3, Dbs=1, MaxSucc=2, MaxQueries=2, Kinds=set("bsm"), Sorted=True), {})
        jobs.append(("5 nodes, random", dict(N=5, Dbs=3, MaxSucc=3, MaxQueries=9, Kinds=set("bsm"), Sorted=False),
                     dict(simulate=2500, depth=300, seed=c.seed + 1)))
    for note, consts, kw in jobs:
        r = tlc("Memo", consts, INV if not kw else ["Quiet", "HeadsActive", "AnsweredIsCached"], ["NoTaint"] if not kw else [], emit="Emit", view=None if kw else "view", timeout=700, workers=4, **kw)
        c.add_tlc(r, note)
        hs = r.histories
        lines = [json.dumps(h) for h in hs]
        for h, a in zip(hs, run_sharded(b, lines)):
            c.traces += 1
            if a != "ok":
                c.violation(f"memoised query differs from the specification: {a}", {"history": h, "answer": a})
        for h in hs[-2:]:
            c.sample(h)
    c.assumptions.append("nothing is promised about a database after a cycle panic unwound out of it")
