"""Runs spec/Errs.tla against arc_anyhow, errors and error_report: shared by C02 and C06."""
from vf import *

RENDER = {"fmt": "fmt m{}", "inl": "inline m{}", "static": "a static message", "dyn": "m{} dyn", "un": "at DefId({0}:5 ~ m{0}[a1B2]::f) of 7", "std": "m{} std",
          "stdun": "DefId(0:{0} ~ m{0}[0000]) std", "aa": "m{} aa", "any": "m{} any", "msg": "m{} msg", "none": "m{} none"}
REPORT = {"fmt": ("fmt {}", "fmt m{}"), "inl": ("inline {m}", "inline m{}"), "static": ("a static message", ""), "dyn": ("m{} dyn", ""), "un": ("at {} of {}", "at DefId(m{}::f) of 7"),
          "std": ("{}", "m{} std"), "stdun": ("{}", "DefId(m{}) std"), "aa": ("{}", "m{} aa"), "any": ("{}", "m{} any"), "msg": ("{}", "m{} msg"), "none": ("{}", "m{} none"), "ctx": ("{}", "m{} ctx")}
ROOTS = [*RENDER, "std2"]
INV, ACT = ["Shared"], ["Append2", "OnlyReport"]
E_OPS = ["new", "ctx", "clone", "conv", "drop", "add", "pass", "bail", "consolidate", "consolidate_on", "discard", "dropc"]
R_OPS = ["report", "enter", "enterwrong", "exit", "in", "cat"]


def root_text(r):
    return "\n".join(": ".join(chain(e)) for e in r["items"]) if r["k"] == "list" else RENDER[r["k"]].format(r["m"])


def chain(e):
    return [f"m{m} ctx" for m in e["ctx"]] + [root_text(e["root"])]


def kind(r):
    return {"list": "list", "std": "std", "stdun": "std"}.get(r["k"], "formatted" if r["k"] in ("fmt", "inl", "static", "dyn", "un") else "other")


def judge(h, a, with_report):
    if not a.startswith("["):
        return f"the program died: {a}"
    steps, report, stable = json.loads(a)
    for k, (s, (res, hs, em)) in enumerate(zip(h, steps)):
        at = f"step {k + 1} ({s['op']} {s['how']})"
        if res.split(" ")[0] != s["res"] and (res or s["res"]):
            return f"{at} returned {res!r}, expected {s['res']!r}"
        if s["op"] == "dropc" and s["res"] == "panic":
            pos, txt = 0, res
            for e in (h[k - 1]["es"][s["a"] - 1] if k else []):
                pos = txt.find(chain(e)[0], pos)
                if pos < 0:
                    return f"{at}: the panic does not name {chain(e)[0]!r} in order: {res!r}"
                pos += len(chain(e)[0])
        if em != [e == [] for e in s["es"]]:
            return f"{at}: collections empty: {em}, expected {[e == [] for e in s['es']]}"
        for i, (e, o) in enumerate(zip(s["h"], hs)):
            if (o is None) != (e["id"] == 0):
                return f"{at}: handle {i + 1} is {o}"
            if o is None:
                continue
            ch = chain(e)
            if o[0] != ch[0]:
                return f"{at}: handle {i + 1} displays {o[0]!r}, expected {ch[0]!r}"
            if o[1] != ": ".join(ch):
                return f"{at}: handle {i + 1} displays the chain {o[1]!r}, expected {': '.join(ch)!r}"
            pos = 0
            for m in ch:
                for ln in m.split("\n"):
                    pos = o[2].find(ln, pos)
                    if pos < 0:
                        return f"{at}: the debug text of handle {i + 1} lacks {ln!r} in order: {o[2]!r}"
                    pos += len(ln)
            eq = [j for j, x in enumerate(s["h"]) if x["id"] == e["id"]]
            if o[3] != eq:
                return f"{at}: handle {i + 1} equals handles {[j + 1 for j in o[3]]}, expected {[j + 1 for j in eq]}"
            if (o[4], o[5]) != (kind(e["root"]), ch[-1]):
                return f"{at}: the root cause of handle {i + 1} is {o[4]} {o[5]!r}, expected {kind(e['root'])} {ch[-1]!r}"
    if with_report:
        if not stable:
            return "the report does not survive being read back"
        want = []
        rep = h[-1]["rep"]
        rep = rep if isinstance(rep, dict) else {str(i + 1): x for i, x in enumerate(rep)}
        for it, x in rep.items():
            if not x["on"]:
                continue
            w = {"source_language": "Rust", "name": f"item{it}" if it != "0" else ""}
            errs = [{k: t.format(e["m"]) if k != "fmt" or e["k"] == "dyn" else t for k, t in zip(("fmt", "full_error"), REPORT[e["k"]]) if t} for e in x["errors"]]
            if errs:
                w["errors"] = errs
            if x["cat"]:
                w["category"] = sum(x["cat"])
            if it != "0":
                w.update({"unique_name": f"u{it}"} if int(it) % 2 else {"defining_target": f"t{it}"})
            want.append(w)
        key = lambda w: w["name"]
        if sorted(report, key=key) != sorted(want, key=key):
            return f"the report is {json.dumps(report)}, expected {json.dumps(want)}"
    return None


def run(c, jobs, with_report):
    def one(j):
        kw = dict(emit="Emit", view="view") if j[2] is None else dict(emit="EmitLast", simulate=j[2], depth=j[1]["MaxLen"] + 1, seed=c.seed, prune="last")
        return tlc("Errs", j[1], INV, ACT, workers=4, **kw)
    with ThreadPoolExecutor(4) as ex:
        fb = ex.submit(harness_bin, "errs")
        res = list(ex.map(one, jobs))
        b = fb.result()
    for j, r in zip(jobs, res):
        c.add_tlc(r, j[0])
        hs = r.histories
        for h, a in zip(hs, run_sharded(b, [json.dumps(h) for h in hs])):
            c.traces += 1
            w = judge(h, a, with_report)
            if w:
                c.violation(f"after {' '.join(s['op'] + ':' + str(s['a']) for s in h)}: {w}", {"history": h, "answer": a[:4000]})
        if hs:
            c.sample([{k: s[k] for k in ("op", "a", "b", "how", "res")} for s in hs[-1]])
