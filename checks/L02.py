"""L02: lifetimes inferred for C++ functions (spec/Infer.tla, harness/lifetimes/infer.cc)."""
import zlib
from vf import *
from lifetimes import lifetime_tool

E1 = [("v", x, "") for x in ("a", "b", "x", "y", "gp", "sp")] + [("d", x, "") for x in ("p", "o", "q")] + [("&", x, "") for x in ("n", "gi", "si")] + [("0", "", "")]
C1 = [("c", x, y) for x, y in (("a", "b"), ("a", "x"), ("x", "y"), ("b", "gp"), ("x", "sp"))]
E2 = [("v", x, "") for x in ("p", "o", "q")] + [("&", x, "") for x in ("a", "b", "x", "y", "gp", "sp")] + [("0", "", "")]
C2 = [("c", x, y) for x, y in (("p", "o"), ("p", "q"), ("q", "o"))]
EXTRA = {"": "int gi; static int si; int* gp; static int* sp;",
         "e": "extern int gi; static int si; extern int* gp; static int* sp;",
         "n": "namespace g { int gi; int* gp; } using namespace g; struct St { static int si; static int* sp; }; static int& si = St::si; static int*& sp = St::sp;"}


def simple(e1, e2, v1=("a", "b", "x", "y", "gp", "sp"), v2=("p", "o", "q"), ret=()):
    return {("=", v, e) for v in v1 for e in e1 if e[:2] != ("v", v)} | {("s", v, e) for v in v2 for e in e1 if e != ("d", v, "")} | \
           {("w", v, e) for v in v2 for e in e2 if e[:2] != ("v", v)} | {("r", "", e) for e in ret}


HELPERS = """int* id(int* u) { return u; } int* first(int* u, int* v) { return u; } int* either(bool c, int* u, int* v) { if (c) return u; return v; }
int* get(int** w) { return *w; } int* get2(int** w) { int* t = get(w); return t; } void put(int** w, int* u) { *w = u; } void put2(int** w, int* u) { put(w, u); }
int** id2(int** w) { return w; } int** either2(bool c, int** w, int** z) { return c ? w : z; } int* getgp() { return gp; } void setgp(int* u) { gp = u; }
void setsp(int* u) { put(&sp, u); } int* loop(int* u, int n) { if (n) return loop(u, n - 1); return u; } int* ping(int* u, int n); int* pong(int* u, int n) { return n ? ping(u, n) : u; }
int* ping(int* u, int n) { return n ? pong(u, n - 1) : u; } void into(int** w, int** z) { put(w, get(z)); } int*& ref(int** w) { return *w; } int& refi(int* u) { return *u; }"""


def called(k, v, e, cond):
    """The same statement or expression by calls of functions that do it.  (The analysis assumes that a call does not
    change where the variables of the caller point, as VisitCallExpr says; calls that store are left out.)"""
    x, y = e[1], e[2]
    h = zlib.crc32(repr((k, v, e)).encode())
    E = {"v": ([f"id({x})", f"first({x}, b)", f"loop({x}, 2)", f"ping({x}, n)", f"&refi({x})"] + (["getgp()"] * 6 if x == "gp" else [])) if x not in ("p", "o", "q") else [f"id2({x})"],
         "d": [f"get({x})", f"get2({x})", f"id(get({x}))", f"ref({x})"], "&": [f"id2(&{x})" if x in ("a", "b", "x", "y", "gp", "sp") else f"id(&{x})"], "0": ["nullptr"],
         "c": [f"either2({cond()}, {x}, {y})" if x in ("p", "o", "q") else f"either({cond()}, {x}, {y})"] if e[0] == "c" else []}[e[0]]
    r = E[h % len(E)] if k != "w" else expr(e, cond)
    if k == "r":
        return f"return {r};"
    if k == "s":
        return f"*{v} = {r};"
    return f"{v} = {r};" if k == "w" or v not in ("gp", "sp") else f"set{v}({r});"


def covered(ans, needs, two):
    """Whether inferred lifetimes, as printed, satisfy what executions demand."""
    ps, r = ans.split(";")
    ps = ps.split(",")
    m = {"A": ps[0], "B": ps[1], "P": ps[2][0], "PQ": ps[2][1], "O": ps[3][0], "OQ": ps[3][1], "R": r[0], "s": "s", "l": "l"}
    if two:
        m["RR"] = r[1]
    return all(m[y] == "s" or (m[x] == m[y] and m[y] != "l") for x, y in needs)


def choice(v, w, c):
    """Of variables, or of values computed from them."""
    return [f"({c} ? {v} : {w})", f"({c} ? {v} + 0 : {w} + 0)", f"({c} ? &*{v} : &{w}[0])"][zlib.crc32((v + w + c).encode()) % 3]


def expr(e, cond):
    k, v, w = e
    return {"v": v, "d": "*" + v, "&": "&" + v, "0": "nullptr"}[k] if k != "c" else choice(v, w, cond())


def function(name, toks, two, local_statics, calls=False):
    n = [0]

    def cond():
        n[0] += 1
        return f"c{n[0]}"
    body, end = [], len(toks) - 1
    for i, (k, v, e) in enumerate(toks):
        if k in ("if", "while"):
            body.append(f"{k} ({cond()}) {{")
        elif k == "else":
            body.append("} else {")
        elif k == "end":
            body.append("}")
        elif calls:
            body.append((f"if ({cond()}) " if k == "r" and i != end else "") + called(k, v, e, cond))
        elif k == "r":
            body.append((f"if ({cond()}) " if i != end else "") + f"return {expr(e, cond)};")
        else:
            body.append(("*" if k == "s" else "") + f"{v} = {expr(e, cond)};")
    pre = "static int si; static int* sp; " if local_statics else ""
    conds = "".join(f", bool c{i + 1}" for i in range(n[0]))
    return f"int*{'*' if two else ''} {name}(int* a, int* b, int** p, int** o{conds}) {{ {pre}int *x = nullptr, *y = nullptr; int** q = &x; int n; {' '.join(body)} }}", n[0]


def expected(bad, cls, two, conds):
    """As the driver prints it: lifetimes named in order of appearance."""
    if bad:
        return "ERROR"
    ids, out = {}, []

    def item(l):
        c = tuple(sorted(cls[l]))
        return "s" if c == ("s",) else str(ids.setdefault(c, len(ids) + 1))
    ps = [["A"], ["B"], ["P", "PQ"], ["O", "OQ"]] + [[]] * conds
    return ",".join("".join(item(l) for l in p) for p in ps) + ";" + "".join(item(l) for l in (["R", "RR"] if two else ["R"]))


def run(c):
    base = dict(Simple=simple(E1, E2), Rets=set(E1), Blocks=set(), MaxLen=3, MaxDepth=0, Two=False)
    small1 = [("v", "a", ""), ("v", "x", ""), ("d", "p", ""), ("d", "q", "")]
    small2 = [("v", "p", ""), ("v", "q", ""), ("&", "x", ""), ("&", "a", "")]
    some = simple(small1, small2, ("a", "x", "gp"), ("p", "q"))
    tiny = {("=", "x", ("v", "a", "")), ("=", "a", ("v", "x", "")), ("s", "q", ("v", "b", "")), ("w", "q", ("&", "a", "")), ("w", "q", ("v", "p", "")), ("w", "p", ("v", "q", "")), ("r", "", ("d", "q", ""))}
    mid = simple(small1 + [("v", "gp", ""), ("&", "n", "")], small2 + [("&", "gp", "")], ("a", "x", "gp"), ("p", "q"))
    few = {("=", "x", ("v", "a", "")), ("s", "q", ("v", "b", "")), ("s", "p", ("v", "a", "")), ("w", "q", ("&", "a", "")), ("w", "q", ("v", "p", "")), ("w", "p", ("v", "q", "")), ("=", "gp", ("v", "x", "")), ("=", "b", ("d", "q", "")), ("w", "q", ("&", "sp", ""))}
    allr = simple(E1 + C1, E2 + C2, ret=E1 + C1)
    runs = [
        ("every function of one statement", {**base, "MaxLen": 2}, None),
        ("every function of one statement that returns a pointer to a pointer", {**base, "Rets": set(E2), "Two": True, "MaxLen": 2}, None),
        ("two statements", {**base, "Simple": c.pick(mid, base["Simple"]), "Rets": {("v", "a", ""), ("d", "p", ""), ("d", "q", ""), ("v", "gp", "")}}, None),
        ("two statements, a pointer to a pointer returned", {**base, "Simple": c.pick(mid, base["Simple"]), "Rets": {("v", "p", ""), ("v", "q", ""), ("&", "gp", "")}, "Two": True}, None),
        ("choices and conditional returns", {**base, "Simple": simple(C1, C2, ret=E1 + C1), "Rets": set(C1 + E1[:3]), "MaxLen": c.pick(2, 3)}, None),
        ("choices returned as pointers to pointers", {**base, "Simple": simple(C1, C2, ret=E2 + C2), "Rets": set(C2), "Two": True, "MaxLen": c.pick(2, 3)}, None),
        ("three statements", {**base, "Simple": c.pick(few, some), "Rets": {("v", "x", ""), ("d", "p", ""), ("d", "q", "")}, "MaxLen": 4}, None),
        ("branches", {**base, "Simple": tiny, "Rets": {("d", "q", ""), ("v", "x", "")}, "Blocks": {"if", "else"}, "MaxLen": c.pick(6, 7), "MaxDepth": 2}, None),
        ("choices after branches", {**base, "Simple": {("=", "x", ("v", "a", "")), ("=", "y", ("d", "p", "")), ("=", "x", ("v", "gp", "")), ("=", "y", ("v", "b", ""))}, "Rets": {("c", "x", "y"), ("c", "y", "x")}, "Blocks": {"if", "else"}, "MaxLen": c.pick(6, 7), "MaxDepth": 1}, None),
        ("loops", {**base, "Simple": tiny, "Rets": {("d", "q", ""), ("v", "x", "")}, "Blocks": {"while"}, "MaxLen": c.pick(5, 6), "MaxDepth": 2}, None),
        ("loops that return pointers to pointers", {**base, "Simple": {t for t in tiny if t[0] != "r"}, "Rets": set(small2), "Blocks": {"while", "if"}, "MaxLen": c.pick(5, 6), "MaxDepth": 2, "Two": True}, None),
        ("random", {**base, "Simple": allr, "Rets": set(E1 + C1), "Blocks": {"if", "else", "while"}, "MaxLen": c.pick(14, 20), "MaxDepth": 3}, c.pick(50, 1500)),
        ("random, pointers to pointers returned", {**base, "Simple": simple(E1 + C1, E2 + C2, ret=E2 + C2), "Rets": set(E2 + C2), "Blocks": {"if", "else", "while"}, "MaxLen": c.pick(14, 20), "MaxDepth": 3, "Two": True}, c.pick(50, 1500)),
    ]

    def spec(r):
        what, K, num = r
        return tlc("Infer", K, ["Nested"], emit="Emit", simulate=num, depth=2 * K["MaxLen"] if num else None, seed=c.seed, workers=4)

    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(lifetime_tool, "infer", "infer.cc")
        res = list(ex.map(spec, runs))
        tool = fb.result()
    budget = {}
    for (what, K, num), r in zip(runs, res):
        c.add_tlc(r, what)
        tus, want, calls = [], [], {True: 0, False: 0}
        hs = r.histories
        B = 150
        for i in range(0, len(hs), B):
            local = (i // B) % 4 == 3
            kind = ["", "e", "n", ""][(i // B) % 4]
            if kind == "n":
                kind = ""
            fns, ws = [], {}
            for j, (toks, bad, cls, needs) in enumerate(hs[i:i + B]):
                f, n = function(f"f{j}", toks, K["Two"], local)
                fns.append(f)
                ws[f"f{j}"] = (f, expected(bad, cls, K["Two"], n), None)
                if not local and (num or c.thorough or j % 3 == i // B % 3):
                    f, n = function(f"g{j}", toks, K["Two"], False, True)
                    fns.append(f)
                    ws[f"g{j}"] = (f, expected(bad, cls, K["Two"], n), needs)
            tus.append("\n".join([EXTRA[kind], HELPERS if not local else "", *fns, "END"]))
            want.append(ws)

        def one(part):
            rc, o, e = sh([tool], inp="\n".join(part) + "\n", timeout=800)
            return rc, o, e
        n = min(8, len(tus)) or 1
        parts = [tus[k::n] for k in range(n)]
        wants = [want[k::n] for k in range(n)]
        with ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(one, parts))
        for (rc, o, e), ws in zip(outs, wants):
            got, cur = [], {}
            for l in o.splitlines():
                if l == "END":
                    got.append(cur)
                    cur = {}
                elif l == "COMPILE":
                    raise ToolError("a generated function does not compile: " + e[:500])
                else:
                    f, v = l.split(" ", 1)
                    cur[f] = "BUDGET" if "maximum number of blocks processed" in v else "ERROR" if v.startswith("ERROR") else v
            if rc != 0:
                k = len(got)
                c.violation(f"{what}: the analysis ends with status {rc}: {e[-300:]}", {"functions": [f for f, _, _ in ws[k].values()] if k < len(ws) else []})
                continue
            for g, w in zip(got, ws):
                for f, (code, exp, needs) in w.items():
                    c.traces += 1
                    if g.get(f) == "BUDGET" and code.count("while") > 1:
                        # LLVM gives up on a function after four visits per block on average
                        budget[what] = budget.get(what, 0) + 1
                        continue
                    if needs is not None:
                        a = g.get(f)
                        calls[a == exp] += 1
                        if a != "ERROR" and (a is None or not covered(a, needs, K["Two"])):
                            c.violation(f"{what}: {code}: lifetimes {a} do not cover {needs}", {"function": HELPERS + code, "inferred": a, "demands": needs})
                    elif g.get(f) != exp:
                        c.violation(f"{what}: {code}: lifetimes {g.get(f)}, expected {exp}", {"function": code, "expected": exp, "inferred": g.get(f)})
        c.sample({"run": what, "function": list(want[0].values())[-1] if want else ""})
        c.extra[what] = {"functions": len(hs), "errors": sum(1 for h in hs if h[1]), "nontrivial": sum(1 for h in hs if h[3]), "with calls": sum(calls.values()), "with calls, same answer": calls[True], "given up by LLVM": budget.get(what, 0)}
