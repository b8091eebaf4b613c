"""S02: rs::Movable, crubit::Slot, MemSwap, MoveAssignOrDestroyAndConstruct (spec/Wrap.tla, harness/wrap)."""
from vf import *
INV = ["Conserved", "Unique"]


def line(h, driver, nm, ns, nv):
    t = h[0]["ty"]
    out, nid, prev = [], 0, None
    for s in h[1:]:
        top = max(s["m"] + s["s"] + s["v"] + [nid])
        thr = s["op"].endswith("_throw")
        out.append(f"{s['op'].replace('_throw', '')} {s['i']} {s['j']} {top} {int(thr)}")
        nid = top
    return f"{driver} {nm} {ns} {nv} " + " ".join(out)


def run(c):
    binp = cxx_harness("wrap", ["main.cc"], ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
    T = "={" + ", ".join(f"[copy |-> {tla_value(bool(cp))}, move |-> {tla_value(bool(mv))}, reloc |-> {tla_value(bool(rl))}, arr |-> {tla_value(bool(a))}]"
                         for cp, mv, rl in ((0, 0, 1), (0, 1, 0), (0, 1, 1), (1, 1, 0), (1, 1, 1)) for a in (0, 1)) + "}"
    jobs = [("two movables, one slot, one value", dict(NM=2, NS=1, NVal=1, MaxId=2, MaxLen=99), None),
            ("two slots, two values", dict(NM=0, NS=2, NVal=2, MaxId=2, MaxLen=99), None),
            ("random, three of each", dict(NM=3, NS=2, NVal=3, MaxId=30, MaxLen=30), c.pick(200, 4000))]
    if c.thorough:
        jobs.append(("three movables", dict(NM=3, NS=1, NVal=1, MaxId=3, MaxLen=99), None))

    def one(j):
        kw = dict(emit="Emit", view="view") if j[2] is None else dict(emit="EmitLast", simulate=j[2], depth=31, seed=c.seed, prune="last")
        kw["constraint"] = "Bound"
        return tlc("Wrap", dict(j[1], Types=T), INV, workers=4, **kw)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, jobs))
    for j, r in zip(jobs, res):
        c.add_tlc(r, j[0])
        k = j[1]
        work = []
        for h in r.histories:
            t = h[0]["ty"]
            n = "".join(str(int(t[x])) for x in ("copy", "move", "reloc", "arr"))
            work.append((n, h))
            if n[:3] == "110" and not any("throw" in s["op"] for s in h[1:]):
                work.append(("triv" + n[3], h))
        ans = run_sharded(binp, [line(h, n, k["NM"], k["NS"], k["NVal"]) for n, h in work], env=env)
        for (n, h), a in zip(work, ans):
            c.traces += 1
            if a.startswith("CRASH"):
                c.violation(f"value type {n}: the program died: {a}", {"history": h, "answer": a})
                continue
            got = a[1:-1].split("][")
            for ix, s in enumerate(h[1:]):
                # a trivial value has no moved-from state of its own
                g = got[ix].split("!")
                vals = [int(x) for x in g[0].split(",")[:-1]]
                exp = s["m"] + s["s"] + s["v"]
                same = all(e == x or (e == -2 and n.startswith("triv")) for e, x in zip(exp, vals))
                live = g[0].split(",")[-1]
                if len(g) > 1 or not same or live not in ("-", str(s["live"])):
                    c.violation(f"value type {n}: after {s['op']} {s['i']} {s['j']}: expected {exp} and {s['live']} live values, observed {got[ix]}",
                                {"history": h[:ix + 2], "observed": got[ix]})
                    break
        c.sample({"type": work[0][0], "history": work[-1][1][:6]})
