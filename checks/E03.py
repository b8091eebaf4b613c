import random, re
from e2e import *
import call_gen
from call_gen import Module, Values

LEAVES = {"bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "isize", "usize", "f32", "f64", "char", "()", "&str", "S", "Big", "E", "CE",
          "String", "Ptr", "fnp", "Tr", "Ord"}
BASE = dict(NV=call_gen.NV, NC=call_gen.NC, Const=1, NoOpt={"()", "fnp"}, NoArr={"()"}, Recv={"S", "Big", "E", "CE", "Tr"}, MaxSame=150,
            Modes={"val", "ref", "mut", "sl", "msl"}, Recvs={"none", "self", "static"}, Abis={"rust", "C", "nomangle", "unsafe"})
INV, ACT = ["TypeOK"], ["OnlyMutChanges", "NothingInvented"]
FLAGS = ("-O0",)


def key(s):
    return json.dumps(s, sort_keys=True)


def run(c):
    generator(); stdlib()
    jobs = [
        ("every type of depth 1, passed by value, & and &mut", dict(Leaves=LEAVES, MaxDepth=1, MaxLen=1, Shape="each", MaxParams=3), None),
        ("every type of depth 2, passed by value, & and &mut", dict(Leaves=LEAVES, MaxDepth=2, MaxLen=1, Shape="each", MaxParams=3), None),
        ("random signatures over types of depth 1", dict(Leaves=LEAVES, MaxDepth=1, MaxLen=5, Shape="random", MaxParams=5), c.pick(25, 250)),
        ("random signatures over leaves", dict(Leaves=LEAVES - {"()"}, MaxDepth=0, MaxLen=6, Shape="random", MaxParams=8), c.pick(30, 300)),
    ]

    def one(j):
        what, k, sim = j
        kw = dict(emit="Emit", view="View") if sim is None else dict(emit="EmitLast", simulate=sim, depth=(k["MaxLen"] + 1) * (k["MaxParams"] + 1) + 4, prune="last", seed=c.seed)
        return tlc("Call", dict(BASE, **k), INV, ACT, workers=4, **kw)
    by = {}
    with ThreadPoolExecutor(4) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            c.add_tlc(r, j[0])
            hs = r.histories
            if "depth 2" in j[0] and not c.thorough:
                sigs = sorted({key(h[0]["sig"]) for h in hs})
                keep = set(random.Random(c.seed).sample(sigs, 600))
                hs = [h for h in hs if key(h[0]["sig"]) in keep]
            for h in hs:
                by.setdefault(key(h[0]["sig"]), []).append(h)
    keys = sorted(by)
    random.Random(c.seed).shuffle(keys)
    vals = Values(c.seed)
    size = 45
    groups = [keys[i:i + size] for i in range(0, len(keys), size)]
    stats = {"functions": 0, "unsupported": 0, "calls": 0}

    def work(g):
        ix, ks = g
        sigs = [json.loads(k) for k in ks]
        m = Module(f"call{ix}", sigs, vals)
        cr = Crate(m.name, m.rust_src())
        try:
            cr.lib()
            cr.generate()
            text = open(cr.h).read()
            # not every nesting is supported; what is reported as such is the business of other properties
            skip = {int(x) for x in re.findall(r"Error generating bindings for [a-z ]*`[^`]*\bf(\d+)`", text)}
            main = os.path.join(cr.dir, "main.cc")
            with open(main, "w") as f:
                f.write(m.cxx_src(skip))
            cr.rust_impl()
            o = os.path.join(cr.dir, "main.o")
            cr.cxx(main, o, FLAGS, what="calls of the generated functions")
            so = os.path.join(cr.dir, "alias.o")
            cr.cxx(SUPPORT_SRC[0], so, FLAGS)
            out = os.path.join(cr.dir, "driver")
            cr.link([o, so], out)
            lines, want = [], []
            for n, k in enumerate(ks):
                if n not in skip:
                    for h in by[k]:
                        lines.append((n, h))
            rc, so, se = sh([out], inp="\n".join(m.script(n, h) for n, h in lines) + "\n", timeout=300)
            got = so.split("\n")
            res = []
            for i, (n, h) in enumerate(lines):
                w = m.expected(n, h)
                a = got[i] if i < len(got) else ""
                if a != w:
                    res.append((f"call differs from the specification: {describe(sigs[n])}" + (f" (driver ended with {rc}: {se[-300:]})" if i >= len(got) - 1 and rc else ""),
                                {"signature": sigs[n], "history": h[1:], "expected": w, "observed": a}))
                    if len(res) > 3 or i >= len(got) - 1:
                        break
            return res, len(sigs), len(skip), sum(len(h) - 1 for _, h in lines), [(m.sigs[n], h) for n, h in lines[:1]]
        except GeneratedCodeError as e:
            return [(f"bindings of {len(sigs)} functions are unusable: {e}", {"signatures": sigs, "error": str(e), "crate": m.rust_src()})], len(sigs), 0, 0, []
        finally:
            cr.clean()
    with ThreadPoolExecutor(8) as ex:
        for res, f, s, n, sm in ex.map(work, enumerate(groups)):
            stats["functions"] += f
            stats["unsupported"] += s
            stats["calls"] += n
            for w, d in res:
                c.violation(w, d)
            for x in sm[:1]:
                c.sample({"signature": x[0], "calls": x[1][1:3]})
    c.traces += stats["calls"]
    log(f"[{c.prop}] {stats}")
    if stats["unsupported"] * 3 > stats["functions"]:
        raise ToolError(f"the generator supports too few of the functions: {stats}")
    c.extra.update(stats)


def describe(s):
    t = lambda p: {"val": "{}", "ref": "&{}", "mut": "&mut {}", "sl": "&slice {}", "msl": "&mut slice {}"}[p["mode"]].format(call_gen.rust_ty(p["ty"]))
    return f"fn({', '.join(map(t, s['params']))}) returning {s['ret']['k']} {s['ret']['ix']} [{s['recv']}, {s['abi']}]"
