"""L01: laws of the lifetime lattices (spec/Lattice.tla, harness/lifetimes/lattice.cc)."""
import random
from itertools import combinations
from vf import *
from lifetimes import lifetime_tool, ANN

ANA = ["lifetime_constraints", "lifetime_lattice", "object", "object_set", "points_to_map"]


def st(s):
    return "".join(map(str, sorted(s))) or "-"


def text(op):
    if op[0] == "A":
        return "A " + " ".join(f"{a} {b}" for a, b in sorted(op[1]))
    return " ".join(st(x) if isinstance(x, list) else str(x) for x in op)


def lattice(l):
    if l["err"]:
        return "error"
    pts = "".join(f"{i + 1}>{st(p)} " for i, p in enumerate(l["pts"]) if p != [0])
    return pts + "/" + "".join(sorted(f"{a}<{b} " for a, b in l["cons"])) + "/" + st(l["sv"])


def expected(op, res):
    k = op[0]
    if k in "ifsSeck":
        return lattice(res)
    if k in "jJ":
        return ("changed " if res[0] else "same ") + lattice(res[1])
    if k == "=":
        return "equal" if res else "different"
    if k in "gp":
        return st(res)
    if k == "o":
        return "".join(sorted(x + " " for x in res)) or "-"
    if k == "u":
        return f"{st(res[0])} {st(res[1])}" + (" contains" if res[2] else " -") + (" equal" if res[3] else " -")
    if k == "+":
        return " ".join(res)
    return res


def agrees(op, res, got):
    if op[0] != "A":
        return got == expected(op, res)
    if not res:
        return got == "error"
    g = got.split()
    if len(g) != 8 or sorted(g[:4]) != ["1", "2", "3", "4"]:
        return False
    now = dict(zip(g[:4], g[4:]))
    g = [now[l] for l in "1234"]
    for i, c in enumerate(res):
        if c == ["s"] or "l" in c or "m" in c:
            if g[i] not in c:
                return False
        elif g[i] not in c or any((g[i] == g[j]) != (sorted(c) == sorted(res[j])) for j in range(4)):
            return False
    return True


def run(c):
    base = dict(Mode="lattice", Regs={1, 2}, Objs={1, 2}, Sets=[{1}, {2}, {1, 2}, set()], Lives=["1", "s"], Cmds=set("isejk=f"), MaxLen=3, Families=[set()], Sources=set(), Names=["a"], Pick=False)
    L = ["1", "2", "3", "4", "u", "s", "l"]
    pairs = [(a, b) for a in L for b in L if a != b]
    fam = {frozenset(s) for n in (0, 1, 2) for s in combinations(pairs, n)}
    rnd = random.Random(c.seed)
    few = [p for p in pairs if "l" not in p]
    for src, lo, hi in ((pairs + [("1", "m"), ("m", "2")], 3, 5), (few, 3, 7), ([p for p in few if p[0] != "s"], 2, 6)):
        fam |= {frozenset(rnd.sample(src, rnd.randint(lo, hi))) for _ in range(c.pick(1200, 12000))}
    if c.thorough:
        fam |= {frozenset(s) for s in combinations(pairs, 3)}
    runs = [
        ("two lattices, pointers", {**base, "Cmds": set("isejk="), "Lives": ["1"], "MaxLen": c.pick(4, 5), "Sets": [{1}, {2}, set()]}, None),
        ("constraints and errors", {**base, "Objs": {1}, "Sets": [{1}], "Lives": c.pick(["1", "2"], ["1", "2", "s"]), "Cmds": set("cjJk=fo"), "MaxLen": c.pick(4, 5)}, None),
        ("three lattices", {**base, "Regs": {1, 2, 3}, "Sets": [{1}, set()], "Lives": ["1", "2"], "Cmds": set("iecj="), "MaxLen": c.pick(3, 4)}, None),
        ("sets", {**base, "Objs": {1, 2, 3}, "Sets": [set(s) for n in range(4) for s in combinations((1, 2, 3), n)], "Lives": ["1", "2", "s", "l"], "Cmds": set("uSgp"), "Regs": {1}, "MaxLen": 2}, None),
        ("random", {**base, "Regs": {1, 2, 3, 4}, "Objs": {1, 2, 3, 4, 5}, "Sets": [set(s) for n in range(4) for s in combinations((1, 2, 3, 4, 5), n)], "Lives": ["1", "2", "3", "4", "s", "l"],
                    "Cmds": set("isSecjJk=gpou") | ({"f"} if c.thorough else set()), "MaxLen": c.pick(30, 60), "Pick": True}, c.pick(12, 250)),
        ("constraints applied to a function", {**base, "Mode": "apply", "Families": fam}, None),
        ("substitutions", {**base, "Mode": "subst", "MaxLen": c.pick(4, 5)}, None),
        ("names", {**base, "Mode": "names", "Names": ["a", "b", "zz"], "MaxLen": c.pick(4, 5)}, None),
        ("more names than letters", {**base, "Mode": "names", "Names": ["c", "z", "aa", "ab", "zz"], "MaxLen": 12}, c.pick(40, 300)),
        ("hundreds of names", {**base, "Mode": "fill", "Names": ["a", "m", "z", "aa", "az", "ba", "mm", "zz", "aaa", "aab", "abc", "n"], "MaxLen": 760, "Pick": True}, 1),
    ]

    def tla(v):
        if isinstance(v, (frozenset, set, list)):
            return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
        if isinstance(v, tuple):
            return "<<" + ", ".join(tla(x) for x in v) + ">>"
        return f'"{v}"' if isinstance(v, str) else str(v)

    def spec(r):
        what, K, num = r
        K = dict(K, **{k: "=" + tla(K[k]) for k in ("Sets", "Lives", "Families", "Names", "Sources", "Cmds")})
        return tlc("Lattice", K, ["Laws", "Settled", "Met"] + ["OneToOne"] * (K["Mode"] != "fill"), view="View", emit="EmitLast" if num else "Emit", simulate=num, depth=K["MaxLen"] if num else None, seed=c.seed, workers=4)

    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(lifetime_tool, "lattice", "lattice.cc", ANN, ANA)
        res = list(ex.map(spec, runs))
        tool = fb.result()
    for (what, K, num), r in zip(runs, res):
        c.add_tlc(r, what)
        lines = [";".join(text(op) for op, _ in h) for h in r.histories]
        for h, l, out in zip(r.histories, lines, run_sharded(tool, lines)):
            c.traces += 1
            got = out.split(";") if out is not None else []
            if len(got) != len(h) or out.startswith("CRASH"):
                c.violation(f"{what}: [{l}] stops: {out}", {"operations": l})
                continue
            for (op, want), g in zip(h, got):
                if not agrees(op, want, g):
                    c.violation(f"{what}: [{l}]: {text(op)} gives {g}, expected {expected(op, want)}", {"operations": l, "at": text(op), "expected": want, "got": g})
                    break
        if lines:
            c.sample({"run": what, "operations": lines[len(lines) // 2]})
