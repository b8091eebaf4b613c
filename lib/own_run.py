"""Runs histories of spec/Own.tla on generated bindings and validates the recorded executions (spec/OwnTrace.tla)."""
import json
from e2e import *
from own_types import *

OPS = {"make", "default", "copynew", "movenew", "copyto", "moveto", "destroy", "give", "givecopy", "take", "consume",
       "rustswap", "cxxswap", "pair", "array", "mkarray", "nest", "opt", "field", "replace"}
INV = ["TypeOK", "StaleOnlyIfTrivial"]
ASAN = ("-O0", "-fsanitize=address", "-fno-sanitize-recover=all")
K = 3


def line(name, hist):
    """The driver's input for one history of Own: the steps, then destroy everything, then empty the vault."""
    st, out = ["A"] * K, []
    for s in hist[1:]:
        st = list(s["st"]) + ["A"] * (K - len(s["st"]))
        out.append(f'{s["op"]} {s["k"]} {s["j"]} {"".join(st)}')
    for k in range(K):
        if st[k] != "A":
            st[k] = "A"
            out.append(f'destroy {k + 1} 0 {"".join(st)}')
    out.append(f'end 1 0 {"".join(st)}')
    return f"{name} " + " ".join(out)


def build(part, types, c):
    """Returns the driver of one group of types, or records a violation."""
    src = PRELUDE + "".join(s + API.replace("NAME", n) for n, (tr, sh, s) in types.items())
    cr = Crate(f"own{part}", src)
    try:
        return cr, cr.build(driver(f"own{part}", [(n, t[0]) for n, t in types.items()]), ASAN, sources=SUPPORT_SRC)
    except GeneratedCodeError as e:
        c.violation(f"bindings of the ownership types are unusable: {e}", {"types": {n: t[:2] for n, t in types.items()}, "error": str(e)})
        return cr, None


def validate(c, runs):
    """TLC checks the recorded executions against Own; returns {index: (step, why)}."""
    bad = {}
    parts = shards(list(range(len(runs))), 4)

    def one(ix):
        r = tlc("OwnTrace", dict(K=K, Types="={}", MaxVault=2, MaxLen=0, Ops="={}", File="trace.json"), spec="TSpec", workers=2,
                emit=None, extra_files={"trace.json": json.dumps([runs[i] for i in ix])}, timeout=800, heap="5g")
        return r, ix
    with ThreadPoolExecutor(4) as ex:
        for r, ix in ex.map(one, parts):
            c.add_tlc(r, "trace validation")
            for x in r.printed:
                bad[ix[x["run"] - 1]] = (x["step"], [w for w in x["why"] if w])
    return bad


def own_run(c, ops, rnd, maxlen=25):
    generator(); stdlib()
    combs = list(combos())
    types = {}
    for tr in combs:
        for sh in SHAPES:
            n = f"T{len(types)}"
            s = type_src(n, tr, sh)
            if s:
                types[n] = (tr, sh, s)
    names = list(types)
    groups = [names[i::8] for i in range(8)]
    with ThreadPoolExecutor(4) as ex:
        builds = list(ex.map(lambda g: build(g[0], {n: types[n] for n in g[1]}, c), enumerate(groups)))
    try:
        drv = {n: b[1] for g, b in zip(groups, builds) for n in g if b[1]}
        T = "={" + ", ".join(tla_value(t) for t in combs) + "}"
        r1 = tlc("Own", dict(K=2, Types=T, MaxVault=1, MaxLen=99, Ops=ops), INV, emit="Emit", view="view", workers=4)
        c.add_tlc(r1, "every operation in every state, 2 objects")
        r2 = tlc("Own", dict(K=K, Types=T, MaxVault=2, MaxLen=maxlen, Ops=ops), INV, emit="EmitLast", simulate=rnd, depth=maxlen + 1,
                 seed=c.seed, workers=4, prune="last")
        c.add_tlc(r2, "random histories, 3 objects")
        # arrays of classes without move constructor, separately (see known_findings.json)
        r3 = not "mkarray" in ops or tlc("Own", dict(K=1, Types="={" + ", ".join(tla_value(t) for t in combs if style(t) == "none") + "}", MaxVault=1, MaxLen=1,
                             Ops={"mkarray", "immovable"}), INV, emit="Emit", view="view", workers=1)
        if "mkarray" in ops:
            c.add_tlc(r3, "arrays of immovable classes")
        by = {}
        for h in r3.histories if "mkarray" in ops else []:
            by.setdefault(json.dumps(h[0]["ty"], sort_keys=True), ([], []))[1].append(h)
        for h in r1.histories:
            by.setdefault(json.dumps(h[0]["ty"], sort_keys=True), ([], []))[0].append(h)
        for h in r2.histories:
            by.setdefault(json.dumps(h[0]["ty"], sort_keys=True), ([], []))[1].append(h)
        jobs = []
        for n, (tr, sh, _) in types.items():
            if n not in drv:
                continue
            ex_, rnd = by.get(json.dumps(tr, sort_keys=True), ([], []))
            jobs += [(n, h) for h in ex_ + rnd]
        runs, meta = [], []
        for n in drv:
            hs = [h for m, h in jobs if m == n]
            meta += [(n, h) for h in hs]
        env = rust_env()
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        bydrv = {}
        for n, h in meta:
            bydrv.setdefault(drv[n], []).append((n, h))
        ok = []
        for d, ms in bydrv.items():
            for (n, h), a in zip(ms, run_sharded(d, [line(n, h) for n, h in ms], env=env)):
                tr, sh, _ = types[n]
                data = {"type": {"traits": tr, "shape": sh, "source": types[n][2]}, "history": h, "answer": a[:2000]}
                what = f"{sh} type {short(tr)}"
                key = "mkarray-immovable" if style(tr) == "none" and any(s["op"] == "mkarray" for s in h[1:]) else None
                if a.startswith("CRASH"):
                    c.violation(f"{what}: the program died: {a[:200]}", data, key)
                elif a.startswith("UNAVAILABLE"):
                    c.violation(f"{what}: C++ does not offer {a.split()[1]}, which the type's traits call for", data)
                elif a.startswith("SKIPPED"):
                    continue
                else:
                    ok.append(({"ty": {**tr, "leaf": "glue" not in sh}, "steps": json.loads(a)}, data, what, key))
        bad = validate(c, [o[0] for o in ok])
        c.traces += len(ok)
        for i, (step, why) in bad.items():
            o, data, what, key = ok[i]
            s = o["steps"][step - 1]
            c.violation(f"{what}: after '{s['op']}' {'; '.join(why)} (events {s['ev']}, contents {s['slot']})", data,
                        key if s["op"] == "mkarray" else None)
        for o in ok[-2:]:
            c.sample(o[0])
        c.extra["types"] = len(types)
        c.assumptions.append("an object moved from while its type has no destructor and is not Copy is only assigned or destroyed")
    finally:
        for b in builds:
            b[0].clean()


def short(tr):
    return "+".join(k for k in ("copy", "clone", "dflt", "drop", "pin") if tr[k]) or "no traits"
