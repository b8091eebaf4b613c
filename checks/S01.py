"""S01: in-place construction (spec/InPlace.tla, harness/inplace)."""
from vf import *

LEAVES = {"fn", "moved", "rmoved", "copy", "mov", "cmov", "byval"}
COMBS = {"err", "unreach", "thenok", "thenerr", "thenpanic", "maperr", "orelse", "fallible", "thenokI", "thenpanicI", "unwrap", "expect", "orelseI",
         "ordefault", "ordefaultpanic", "slotnew", "slotuninit", "slotnewF", "md", "mdF", "P", "T", "Q"}
PLACES = {"emplace", "tryemplace", "box", "trybox", "rc", "tryrc", "arc", "tryarc"}
TYPES = {"L", "P", "T", "Q", "S", "M"}
SLOT = {"replace", "tryreplace", "clear", "slotdrop", "look"}
CELL = {"makecell", "reconstruct", "acopy", "aref", "amov", "acmov", "dropcell"}


def run(c):
    drv = harness_bin("inplace")
    runs = [
        ("every small expression in every place", dict(MaxNodes=5, MaxRounds=1, Targets=PLACES | {"construct"}, Leaves={"fn", "moved"}, Combs=COMBS, Types=TYPES), None),
        ("every expression with every leaf", dict(MaxNodes=c.pick(5, 6), MaxRounds=1, Targets={"emplace", "tryemplace"}, Leaves=LEAVES, Combs=COMBS, Types={"L", "P", "S", "M"}), None),
        ("every larger expression", dict(MaxNodes=c.pick(7, 8), MaxRounds=1, Targets={"tryemplace"}, Leaves={"fn", "moved"},
                                         Combs={"err", "unreach", "thenok", "thenerr", "thenpanic", "orelse", "fallible", "unwrap", "ordefault", "P", "T"}, Types={"P", "T"}), None),
        ("every short history of a slot", dict(MaxNodes=12, MaxRounds=c.pick(3, 4), Targets=SLOT, Leaves={"fn", "moved", "bomb"},
                                               Combs={"err", "unreach", "fallible"}, Types=set()), None),
        ("every short history of a cell", dict(MaxNodes=12, MaxRounds=4, Targets=CELL, Leaves={"fn", "rmoved", "copy"}, Combs=set(), Types=set()), None),
        ("random", dict(MaxNodes=36, MaxRounds=4, Targets=PLACES | SLOT | CELL | {"construct"}, Leaves=LEAVES | {"bomb"}, Combs=COMBS, Types=TYPES), c.pick(1500, 30000)),
    ]
    for what, K, num in runs:
        r = tlc("InPlace", K, invariants=["DeadNotOwned", "OnceInFrames", "OneOwner", "NotMadeNotDead", "NothingLost", "FailureLeavesNothing"], properties=["DeadStays"],
                view="View", emit="EmitLast" if num else "Emit", simulate=num, depth=160 if num else None, seed=c.seed)
        c.add_tlc(r, what)
        lines = [" ".join(f"{e['op']}:{e['t']}" for e in h if e["op"] != "obs") for h in r.histories]
        for h, l, o in zip(r.histories, lines, run_sharded(drv, lines)):
            c.traces += 1
            if (bad := wrong(h, o)):
                c.violation(bad, dict(history=h, driver_line=l, observed=o), "inplace")
        if lines:
            c.sample(f"{what}: {lines[len(lines) // 2]}")


def wrong(h, o):
    if o.startswith("CRASH"):
        return "the program crashed: " + o[:1500]
    body, bad = o.split("|", 1)
    if bad:
        return bad
    *steps, last = body.split(";")
    obs = [e for e in h if e["op"] == "obs"]
    prog = [e for e in h if e["op"] != "obs"]
    at = 0
    js = lambda s: [int(x) for x in s.split(",")] if s else []
    for e, s in zip(obs, steps):
        what = " ".join(x["op"] for x in prog[at:e["nodes"]]) + ": "
        at = e["nodes"]
        out, code, val, dead, slot, cell = s.split("/")
        if (out, int(code)) != (e["out"], e["code"]):
            return what + f"ended with {out} {code}, expected {e['out']} {e['code']}"
        if js(val) != sorted(e["val"]):
            return what + f"value in place {val}, expected {sorted(e['val'])}"
        d = js(dead)
        for i in range(len(d)):
            want = int(i in e["dead"])
            if i <= e["nodes"] and d[i] != want:
                return what + f"value {i} destroyed {d[i]} times, expected {want}"
        if js(slot) != sorted(e["slot"]) or js(cell) != sorted(e["cell"]):
            return what + f"slot {slot} cell {cell}, expected {e['slot']} {e['cell']}"
    e = obs[-1]
    want = set(e["dead"]) | set(e["slot"]) | set(e["cell"])
    d = js(last.split("/")[1])
    if d != [int(i in want) for i in range(len(d))]:
        return f"{' '.join(x['op'] for x in prog)}: after everything ended, destroyed {d}, expected {sorted(want)}"
