"""E09: every public item is bound or explained, in isolation (spec/Items.tla, lib/items.py)."""
import random
from items import *

NAME = re.compile(r"\bn\d+x\d+\b")


def run(c):
    generator(); stdlib()
    rnd = random.Random(c.seed)
    every = dict(Kinds=GOOD_KINDS | BAD_KINDS, Pubs={0, 1, 2, 3, 4})
    runs = [
        ("one mention of one type, every visibility", dict(ONE_EDGE, Kinds=GOOD_KINDS | BAD_KINDS, Classes={"copy", "immov"}, Neutral=False, MaxMods=1, MaxExps=0, Ranks={1}, Pubs={0, 1},
                                                           Forms=rnd.sample(sorted(FORMS), c.pick(3, 12))), None),
        ("re-exports, globs and aliases", dict(ONE_EDGE, Kinds={"struct", "const", "trait", "fn", "zst", "static"}, Classes={"copy"}, Neutral=False, MaxMods=2, MaxItems=c.pick(1, 2), MaxUses=c.pick(0, 1),
                                               MaxExps=c.pick(2, 1), Forms={"val"}, Ranks={1, 2}, Pubs={0, 1}, Hids={0, 1}), None),
        ("mixtures of twelve items", dict(LARGE, Forms=NO_PTR, **every), c.pick(6, 60)),
        ("mixtures of eight items, many modules and re-exports", dict(LARGE, Forms=NO_PTR, MaxMods=5, MaxItems=8, MaxUses=6, MaxExps=7, Kinds={"struct", "enumr", "union", "const", "trait", "fn", "zst", "alias", "gen", "gfn"}, Pubs={0, 1, 2}), c.pick(4, 60)),
        ("must_bind", dict(LARGE, Forms=NO_PTR, MaxMods=2, MaxItems=8, MaxUses=8, MaxExps=2, MaxMusts=3, Kinds={"struct", "enumr", "fn", "method", "zst", "gfn", "tuple"}, Pubs={0, 1, 2}), c.pick(8, 80)),
    ]

    def spec(r):
        what, K, num = r
        return tlc("Items", dict(K, Forms=set(K["Forms"])), INVARIANTS, ["Isolated"] if not num else (), emit="Emit", view="View", simulate=num, depth=60 if num else None, seed=c.seed, workers=3, heap="6g")
    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(spec, runs))
    packs = []
    for (what, _, num), r in zip(runs, res):
        c.add_tlc(r, what)
        hs = worlds_of(r.histories)
        must = what == "must_bind"
        if num:
            hs = hs[:c.pick(30 if must else 16, 400)]
            packs += [(must, [World(h, 0)]) for h in hs]
        else:
            hs = rnd.sample(hs, min(len(hs), c.pick(700, 8000)))
            packs += [(False, [World(h, k) for k, h in enumerate(p)]) for p in chunks(hs, 50)]
        c.extra.setdefault("worlds", {})[what] = len(hs)

    def go(a):
        n, (must, worlds) = a
        return worlds, (musts if must else judge)(f"c{n}", worlds)
    total = 0
    with ThreadPoolExecutor(8) as ex:
        for worlds, bad in ex.map(go, enumerate(packs)):
            c.traces += len(worlds)
            total += sum(len(w.items) for w in worlds)
            for w, e in bad:
                ws = w if isinstance(w, list) else [w]
                c.violation(e, {"rust": "".join(x.rust() for x in ws), "world": [x.h for x in ws]})
            if not bad and len(worlds) == 1:
                w = worlds[0]
                c.sample(f"{len(w.items)} items: {sum(v['bound'] for v in w.verdicts)} bound, {sum(v['explained'] for v in w.verdicts)} explained, {sum(not v['visible'] for v in w.verdicts)} not visible"
                         + (f", {sum(v['failing'] for v in w.verdicts)} failing must_bind" if any(i["must"] for i in w.items) else ""))
    c.extra["items_judged"] = total


def judge(crate, worlds):
    """(world, what is wrong) for worlds without must_bind."""
    try:
        h, rep = build(crate, worlds)
    except GeneratedCodeError as e:
        return [(w, f"a bound item is not where it belongs, or the outputs do not compile: {short(x)}") for w, x in culprits(crate, worlds, build, e)]
    tk, dg = tokens(h), diagnostics(h)
    told = {}
    for x in rep:
        if x.get("errors"):
            told.setdefault(x["name"].split("::")[-1].split("<")[0].strip(), x["errors"])
    bad = []
    for w in worlds:
        yes, no = w.seen()
        if no & tk:
            bad.append((w, f"items that C++ must not see appear in the header: {names(w, no & tk)}"))
        if yes - tk:
            bad.append((w, f"items have no binding: {names(w, yes - tk)}"))
        for i, ns in w.explained():
            if not ns & set(dg):
                bad.append((w, f"no comment explains why the {w.items[i - 1]['kind']} n{w.items[i - 1]['key']} has no binding"))
            elif not all(len(dg[n].split(":", 1)[-1].strip()) > 8 for n in ns & set(dg)):
                bad.append((w, f"the comment about the {w.items[i - 1]['kind']} n{w.items[i - 1]['key']} gives no reason: {[dg[n] for n in ns & set(dg)]}"))
            if w.items[i - 1]["kind"] not in ("method", "impl") and not ns & set(told):
                bad.append((w, f"the error report does not mention the {w.items[i - 1]['kind']} n{w.items[i - 1]['key']}"))
    return bad


def names(w, ns):
    kind = {w.name(it["key"]): it["kind"] for it in w.items}
    return ", ".join(f"{kind.get(n, '')} {n.split('x')[0]}".strip() for n in sorted(ns))


def musts(crate, worlds):
    """A world with must_bind items: the generator fails exactly when one of them has no bindings, and names them all."""
    w, = worlds
    want = {w.name(it["key"]) for it, v in zip(w.items, w.verdicts) if v["failing"]}
    if not want:
        return judge(crate, worlds)
    c = Crate(crate, HEAD + w.rust(), rustc_args=support_externs())
    try:
        c.lib()
        rc, out = c.generate(check=False)
        if rc == 0:
            return [(w, f"the generator succeeds although must_bind items have no bindings: {names(w, want)}")]
        if "panicked" in out:
            return [(w, f"the generator panics where must_bind items have no bindings: {short(out)}")]
        got = {m[1].split("::")[-1] for m in re.finditer(r"must_bind\]` was applied to `([^`]*)`", out)}
        # a type goes by its canonical path
        also = {w.name(p[5]): w.name(it["key"]) for it, v in zip(w.items, w.verdicts) for p in v["names"]}
        got = {also.get(n, n) for n in got}
        if got != want:
            return [(w, f"must_bind errors name {names(w, got) or 'nothing'}, expected {names(w, want)}")]
        return []
    except GeneratedCodeError as e:
        return [(w, f"the crate cannot be processed: {short(e)}")]
    finally:
        c.clean()
