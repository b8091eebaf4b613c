"""C03: topological sorting (spec/Toposort.tla, harness/topo)."""
import json, random
from vf import *

INV = ["Partition", "Topological", "FailedExact", "Kept", "Greedy"]


def run(c):
    b = harness_bin("topo")
    rnd = random.Random(c.seed)
    all3 = "={" + ", ".join(tla_value([i, j, k]) for i in (1, 2, 3) for j in (1, 2, 3) for k in (1, 2, 3)) + "}"

    def ranks(n, k):
        return "={" + ", ".join({tla_value([rnd.randint(1, n) for _ in range(n)]) for _ in range(k)}) + "}"
    jobs = [("every graph on 3 nodes, every preference", dict(N=3, Ranks=all3, MaxEdges=9), {}),
            ("every graph on 4 nodes", dict(N=4, Ranks="={<<1,2,3,4>>}", MaxEdges=c.pick(6, 16)), {}),
            ("random graphs on 7 nodes", dict(N=7, Ranks=ranks(7, 20), MaxEdges=8), dict(simulate=c.pick(200, 5000), depth=20)),
            ]
    if c.thorough:
        jobs.append(("every graph on 4 nodes, more preferences", dict(N=4, Ranks="={<<4,3,2,1>>, <<1,1,1,1>>, <<2,4,1,3>>}", MaxEdges=16), {}))
        jobs.append(("graphs on 5 nodes with up to 6 edges", dict(N=5, Ranks="={<<1,2,3,4,5>>}", MaxEdges=6), {}))
        jobs.append(("random graphs on 9 nodes", dict(N=9, Ranks=ranks(9, 40), MaxEdges=12), dict(simulate=500, depth=22)))
    for note, consts, kw in jobs:
        if kw:
            kw["seed"] = c.seed
        r = tlc("Toposort", consts, INV, emit="Emit", view=None if kw else "view", timeout=800, workers=4, prune=False, **kw)
        c.add_tlc(r, note)
        for h, a in zip(r.histories, run_sharded(b, [json.dumps(h) for h in r.histories])):
            c.traces += 1
            if a != "ok":
                c.violation(f"topological sort differs from the specification: {a}", {"graph": h, "answer": a})
        for h in r.histories[-2:]:
            c.sample(h)
