"""E08: both outputs compile, for every crate (spec/Items.tla, lib/items.py)."""
import random
from items import *


def run(c):
    generator(); stdlib()
    rnd = random.Random(c.seed)
    full = dict(Kinds=GOOD_KINDS | {"zst", "gen", "gfn", "static"}, Pubs={0, 1, 2, 3, 4})
    runs = [
        ("one mention of one type by one item", dict(ONE_EDGE, Classes={"copy", "clone", "immov"} if not c.thorough else CLASSES), None),
        ("crates of twelve items", dict(LARGE, Forms=NO_PTR, **full), c.pick(5, 60)),
        ("crates of twelve items, raw pointers", dict(LARGE, Forms=NO_REF, **full), c.pick(3, 40)),
        ("types only", dict(LARGE, Forms=NO_PTR, MaxMods=1, MaxItems=9, MaxUses=16, MaxExps=0, Kinds={"struct", "tuple", "enumc", "enumr", "union", "alias"}, Pubs={1, 2}), c.pick(5, 60)),
        ("functions over many types", dict(LARGE, Forms=NO_PTR, MaxMods=1, MaxItems=10, MaxUses=18, MaxExps=2, Kinds={"struct", "enumr", "fn", "method", "alias"}, Pubs={1, 2}), c.pick(3, 40)),
    ]

    def spec(r):
        what, K, num = r
        return tlc("Items", K, INVARIANTS, emit="Emit", view="View", simulate=num, depth=60 if num else None, seed=c.seed, workers=4 if num else 2, heap="8g")

    def one(crate, worlds):
        return build(crate, worlds, probes=False)

    with ThreadPoolExecutor(5) as ex:
        res = list(ex.map(spec, runs))
    packs = []
    for (what, _, num), r in zip(runs, res):
        c.add_tlc(r, what)
        hs = worlds_of(r.histories)
        if num:
            packs += [[World(h, 0)] for h in hs[:c.pick(18, 400)]]
        else:
            hs = rnd.sample(hs, min(len(hs), c.pick(1000, 12000)))
            packs += [[World(h, k) for k, h in enumerate(p)] for p in chunks(hs, 42)]
        c.extra.setdefault("worlds", {})[what] = len(hs)

    def go(a):
        n, worlds = a
        try:
            h, _ = one(f"c{n}", worlds)
            return worlds, h, []
        except GeneratedCodeError as e:
            return worlds, "", culprits(f"c{n}", worlds, one, e)
    with ThreadPoolExecutor(8) as ex:
        for worlds, h, bad in ex.map(go, enumerate(packs)):
            c.traces += len(worlds)
            for w, e in bad:
                src = "".join(x.rust() for x in (w if isinstance(w, list) else [w]))
                c.violation(f"a crate of supported items: {short(e)}", {"rust": src, "error": str(e), "world": getattr(w, "h", None)})
            if not bad and len(worlds) == 1:
                c.sample(f"{len(worlds[0].items)} items, {len(worlds[0].uses)} mentions, {len(worlds[0].exps)} re-exports -> {h.count(chr(10))} lines of header, both outputs compile")
    # the finding, as long as it stands
    try:
        cr = Crate("refptr", HEAD + "pub struct X { pub a: u8 } pub fn f(_a: Option<&'static X>, _b: Option<*const X>) {}")
        try:
            cr.lib(); cr.generate()
            with open(f"{cr.dir}/alone.cc", "w") as f:
                f.write('#include "refptr.h"\n')
            cr.cxx(f"{cr.dir}/alone.cc", None, syntax_only=True)
        finally:
            cr.clean()
    except GeneratedCodeError as e:
        c.violation(f"Option<&T> next to Option<*const T>: {short(e)}", {"error": str(e)}, key="ref-ptr" if "redefinition of 'Option" in str(e) else None)
