"""N01: nullability evidence merged in any order (spec/Merge.tla, harness/merge)."""
import zlib
from itertools import combinations
from vf import *

KINDS = set(range(36)) - {25}
HARD = {3, 21, 18, 10, 34, 26, 12, 14, 31, 4, 20, 13, 33, 7, 17, 35, 11}


def build():
    d = ensure(os.path.join(WORK, "merge"))
    rc, o, e = sh(["protoc", "-I" + REPO, "--cpp_out=" + d, REPO + "/nullability/inference/inference.proto"])
    if rc != 0:
        raise ToolError("protoc: " + e)
    h = os.path.join(d, "absl/log/check.h")
    if not os.path.exists("/usr/include/absl/log/check.h"):
        ensure(os.path.dirname(h))
        with open(h, "w") as f:
            f.write('#pragma once\n#include <cstdlib>\n#define CHECK(c) do { if (!(c)) abort(); } while (0)\n'
                    '#define CHECK_EQ(a, b) CHECK((a) == (b))\n#define CHECK_NE(a, b) CHECK((a) != (b))\n#define CHECK_LE(a, b) CHECK((a) <= (b))\n'
                    '#define CHECK_LT(a, b) CHECK((a) < (b))\n#define CHECK_GE(a, b) CHECK((a) >= (b))\n#define CHECK_GT(a, b) CHECK((a) > (b))\n'
                    '#define DCHECK CHECK\n#define DCHECK_EQ CHECK_EQ\n#define DCHECK_LE CHECK_LE\n')
    return cxx_harness("merge", ["driver.cc", d + "/nullability/inference/inference.pb.cc", REPO + "/nullability/inference/merge.cc"],
                       flags=("-w",), includes=(d, "/usr/lib/llvm-18/include"), libs=("-lprotobuf", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"))


def text(op):
    if op[0] == "e":
        return "e 1 " + " ".join(f"{k} {l} 0" for k, l in op[2])
    if op[0] == "i":
        return f"i {int(op[1])} " + " ".join(f"{k} {1 + zlib.crc32(repr((k, sorted(op[2]))).encode()) % 3}" for k in op[2])
    return " ".join(str(int(x)) if not isinstance(x, str) else x for x in op)


def samples_ok(have, show):
    """have: kind -> sampled locations; show: kind, count, locations."""
    want = {k: set(ls) for k, _, ls in show if ls}
    return set(have) == set(want) and all(len(have[k]) == len(set(have[k])) == min(3, len(want[k])) and set(have[k]) <= want[k] for k in have)


def matches(op, res, got):
    try:
        return agrees(op, res, got)
    except (ValueError, IndexError):
        return False   # not the kind of answer the operation has


def agrees(op, res, got):
    if op[0] in "nm":
        if not res:
            return got == "none"
        cnt, _, smp = got.partition("/")
        have = {int(x.split(":")[0]): [y for y in x.split(":")[1].split(",") if y] for x in smp.split()}
        have = {k: [int(y) if y.isdigit() else y for y in v] for k, v in have.items() if v}
        return dict(tuple(map(int, x.split("*"))) for x in cnt.split()) == {k: n for k, n, _ in res} and samples_ok(have, res)
    con = res if op[0] == "i" else res[0]
    head, _, smp = got.partition("/")
    if head != str(con["n"]) + (" conflict" if con["conflict"] else "") + (" trivial" if con["trivial"] else ""):
        return False
    if op[0] == "i":
        return True
    xs = [tuple(map(int, x.split(":"))) for x in smp.split()]
    have = {}
    for k, l in xs:
        have.setdefault(k, []).append(l)
    return xs == sorted(xs) and samples_ok(have, res[1])


def run(c):
    base = dict(Pick=False, Kinds={3, 13}, Locs={0, 1}, Crosses={False}, Regs={1, 2}, MaxLen=4, MaxEv=6, Direct=set())
    none = dict(base, MaxLen=0)
    trip = [set(s) for n in (0, 1, 2, c.pick(2, 3)) for s in combinations(sorted(KINDS), n)]
    soft = sorted(KINDS - HARD)
    hard3 = [set(s) for s in combinations(sorted(HARD | {32}), 3)]
    import random
    rnd = random.Random(c.seed)
    big = [set(rnd.sample(sorted(p), rnd.randint(3, len(p)))) for p in (soft, sorted(KINDS - {1, 2}), sorted(HARD | {32}), sorted(KINDS)) for _ in range(c.pick(700, 6000))]
    soft4 = [set(s) for s in combinations([x for x in soft if x not in (0, 1, 2)], c.pick(3, 4))]
    runs = [
        ("merge trees", dict(base, Regs={1, 2, 3}, MaxLen=c.pick(4, 5)), None),
        ("evidence across tests", dict(base, Kinds={3, 13}, Crosses={False, True}, MaxLen=c.pick(3, 4)), None),
        ("more locations than are kept", dict(base, Kinds={3}, Locs={1, 2, 3, 4}, MaxLen=c.pick(7, 8), MaxEv=7), None),
        ("order of three", dict(base, Kinds={3, 4, 29}, Locs={1}, Regs={1, 2}, MaxLen=c.pick(5, 6)), None),
        ("random", dict(base, Kinds=KINDS, Locs={0, 1, 2, 3, 4, 5, 6}, Crosses={False, True}, Regs={1, 2, 3}, MaxLen=c.pick(20, 40), MaxEv=20, Pick=True), c.pick(15, 300)),
        ("conclusions from kinds", dict(none, Direct=[*trip, *hard3, *soft4, *big]), None),
    ]

    def tset(xs):
        return "={" + ", ".join("{" + ", ".join(map(str, sorted(s))) + "}" for s in xs) + "}"

    def spec(r):
        what, K, num = r
        K = dict(K, Direct=tset({frozenset(s) for s in K["Direct"]}))
        return tlc("Merge", K, ["Faithful", "Laws", "Stable", "Decided"], view="View", emit="EmitLast" if num else "Emit", simulate=num, depth=K["MaxLen"] if num else None,
                   seed=c.seed, workers=4)

    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(build)
        res = list(ex.map(spec, runs))
        drv = fb.result()
    for (what, K, num), r in zip(runs, res):
        c.add_tlc(r, what)
        lines = [";".join(text(op) for op, _ in h) for h in r.histories]
        for h, l, out in zip(r.histories, lines, run_sharded(drv, lines)):
            c.traces += 1
            got = out.split(";") if out is not None else None
            if got is None or len(got) != len(h) or out.startswith("CRASH"):
                c.violation(f"{what}: [{l}] stops: {out}", {"operations": l})
                continue
            for (op, want), g in zip(h, got):
                if not matches(op, want, g):
                    c.violation(f"{what}: [{l}]: after {text(op)} there is {g}, expected {want}", {"operations": l, "at": text(op), "expected": want, "got": g})
                    break
        if lines:
            c.sample({"run": what, "operations": lines[len(lines) // 2]})
