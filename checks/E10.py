"""E10: bindings are a function of the crate (spec/Items.tla, lib/items.py)."""
import copy
import random
from collections import Counter
from items import *

NAME = re.compile(r"n\d+x\d+")


def outputs(crate, src, twice=False):
    """Header, Rust file and error report, with the directory blanked."""
    c = Crate(crate, HEAD + src)
    c.extra = [f"--error-report-out={c.dir}/report.json"]
    try:
        c.lib()
        out = []
        for k in range(2 if twice else 1):
            c.generate(env={"HOME": "/nonexistent", "LANG": "C", "TZ": "Asia/Tokyo", "COLUMNS": "20"} if k else {})
            out.append([open(p).read() for p in (c.h, c.rs, f"{c.dir}/report.json")])
            for p in (c.h, c.rs, f"{c.dir}/report.json"):
                os.unlink(p)
        return [[t.replace(c.dir, "/src") for t in o] for o in out]
    finally:
        c.clean()


LEAD = re.compile(r"template ?<|(struct|union|enum) alignas|\[\[")
FWD = re.compile(r"^(struct|union) (CRUBIT_INTERNAL_RUST_TYPE ?\(.*\) ?)?\w+$")


def bag(text):
    """The statements of an output, whatever their order."""
    t = re.sub(r";l=\d+", "", text)
    t = re.sub(r"(?m)^#\s*(include|define|ifndef|endif|pragma).*$", "", t)
    out, last, ahead = Counter(), "", []
    for line in t.split("\n"):
        for s in [line] if line.lstrip().startswith("//") else re.split(r"[;{}]", line):
            s = " ".join(s.split())
            if s and s != "//" and not FWD.match(s) and not s.startswith(("namespace ", "inline namespace ", "// Generated from:", "// clang-format")):
                # what names no item belongs to the one named last
                # (or, where an item begins, to the one named next)
                if LEAD.match(s) and not NAME.search(s):
                    ahead.append(s)
                    continue
                if NAME.search(s):
                    last, s, ahead = s, " ".join(ahead + [s]), []
                else:
                    s = f"{last} ... {s}"
                out[s] += 1
    return out


def more(w, rnd):
    """The world with one more item that nothing mentions."""
    h = copy.deepcopy(w.h)
    k = rnd.choice(sorted((GOOD_KINDS | BAD_KINDS) - {"alias", "method", "impl"}))
    key = rnd.choice([1, 2, 3]) * 100 + 99
    h["items"].append(dict(kind=k, mod=rnd.randrange(len(h["mods"]) + 1), pub=rnd.random() < .8, cls=rnd.choice(["copy", "both", "immov"]) if k in ("struct", "tuple", "enumr", "enumc") else "copy",
                           key=key, own=0, trt=0, must=False))
    return World(h, w.k), f"n{key}x{w.k}", k


def first(d):
    return "; ".join(f"{'+' if n > 0 else '-'} {s[:160]}" for s, n in sorted(d.items())[:3])


def diff(a, b):
    d = Counter(b)
    d.subtract(a)
    return {s: n for s, n in d.items() if n}


def judge(a):
    n, w, w2, seed = a
    rnd = random.Random(seed)
    bad, what = [], ("header", "Rust file", "error report")
    base, again = outputs("e10", w.rust(), twice=True)
    for x, y, t in zip(base, again, what):
        if x != y:
            bad.append(f"two runs on the same crate differ in the {t}: {next((f'{p!r} / {q!r}' for p, q in zip(x.split(chr(10)), y.split(chr(10))) if p != q), 'length')}")
    third, = outputs("e10", w.rust())
    for x, y, t in zip(base, third, what):
        if x != y:
            bad.append(f"the {t} depends on the directory or the compilation of the crate: {next((f'{p!r} / {q!r}' for p, q in zip(x.split(chr(10)), y.split(chr(10))) if p != q), 'length')}")
    B = [bag(t) for t in base[:2]]
    sh, = outputs("e10", World(w.h, w.k, order=rnd).rust())
    for x, y, t in zip(B, sh, what):
        d = diff(x, bag(y))
        if d:
            bad.append(f"the {t} depends on the order of declarations: {first(d)}")
    wm, name, kind = more(w, rnd)
    plus, = outputs("e10", wm.rust())
    for x, y, t in zip(B, plus, what):
        d = {s: k for s, k in diff(x, bag(y)).items() if name not in s}
        if d:
            bad.append(f"an unrelated {kind} changes the {t}: {first(d)}")
    if w2:
        other, = outputs("e10", w2.rust())
        both, = outputs("e10", w.rust() + w2.rust())
        for x, y, z, t in zip(B, other, both, what):
            d = diff(x + bag(y), bag(z))
            d = {s: k for s, k in d.items() if NAME.search(s)}
            if d:
                bad.append(f"two unrelated modules change each other in the {t}: {first(d)}")
    return bad


def run(c):
    generator(); stdlib()
    rnd = random.Random(c.seed)
    mixed = dict(Kinds=GOOD_KINDS | BAD_KINDS, Pubs={0, 1, 2, 3, 4})
    runs = [
        ("mixtures of twelve items", dict(LARGE, Forms=NO_PTR, **mixed), c.pick(5, 60)),
        ("types only", dict(LARGE, Forms=NO_PTR, MaxMods=1, MaxItems=9, MaxUses=16, MaxExps=0, Kinds={"struct", "tuple", "enumc", "enumr", "union", "alias"}, Pubs={1, 2}), c.pick(4, 40)),
        ("modules and re-exports", dict(LARGE, Forms=NO_PTR, MaxMods=5, MaxItems=8, MaxUses=6, MaxExps=7, Kinds={"struct", "enumr", "union", "const", "trait", "fn", "zst", "alias", "gen", "gfn"}, Pubs={0, 1, 2}), c.pick(3, 40)),
    ]

    def spec(r):
        what, K, num = r
        return tlc("Items", K, INVARIANTS, ["Isolated"], emit="Emit", view="View", simulate=num, depth=60, seed=c.seed, workers=4)
    with ThreadPoolExecutor(3) as ex:
        res = list(ex.map(spec, runs))
    todo = []
    for (what, _, num), r in zip(runs, res):
        c.add_tlc(r, what)
        hs = worlds_of(r.histories)[:c.pick(10, 300)]
        for i, h in enumerate(hs):
            todo.append((len(todo), World(h, 0), World(hs[i - 1], 1) if i % 2 else None, rnd.randrange(1 << 30)))
        c.extra.setdefault("worlds", {})[what] = len(hs)

    def go(t):
        try:
            return t, judge(t)
        except GeneratedCodeError as e:
            return t, [f"the crate cannot be processed: {short(e)}"]
    runs = 0
    with ThreadPoolExecutor(8) as ex:
        for t, bad in ex.map(go, todo):
            c.traces += 1
            runs += 5 + 2 * bool(t[2])
            for b in bad:
                c.violation(b, {"rust": t[1].rust(), "world": t[1].h})
            if not bad:
                c.sample(f"{len(t[1].items)} items, {len(t[1].uses)} mentions, {len(t[1].exps)} re-exports: two runs, another directory, another order, one more item: same bindings")
    c.extra["runs_of_the_generator"] = runs
