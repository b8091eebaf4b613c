"""C05: printing tokens (spec/Tokens.tla, harness/tokens)."""
import re
from vf import *

COMS = ["plain", 'say "hi"', '"', "a\\b", "C:\\new", "ends in \\", "two\nlines", "\ttab é", "", "trail \\\nnext", "\\\""]
TEXTS = ["x{}y", "'\\f'", 'T<"q">', "back\\slash\\\\"]
PAIR = {"(": ")", "[": "]", "{": "}"}


def pattern(h):
    """The texts the specification allows, as a regular expression over bytes; captures are named groups."""
    rx, toks, caps = b"", [], {}
    e = lambda s: re.escape(s.encode())
    n = 0
    for s in h:
        t, sep = s["t"], {"must": b" +", "none": b"", "opt": b" *"}[s["sep"]]
        c, v = t["c"], t["v"]
        if c in ("beg", "end"):
            rx += b" *"
            continue
        if c in ("com", "tag"):
            lines = ("Generated from: x" if c == "tag" else v).split("\n")
            body = b"\n".join(b"// " + e(x) + b" *" for x in lines)
            if lines[-1].endswith("\\"):     # the comment must not swallow what follows
                body += rb"[^\n]*[^\n\\ ]"
            rx += b" *" + body + b"\n"
            continue
        if c == "lity":
            rx += b" *" + e(v) + b"\n"
            continue
        if c in ("nl", "sp"):
            rx += b" *" + (b"\n" if c == "nl" else b" ") 
            continue
        text = {"lt": "'" + v, "hash": "#", "close": PAIR.get(v, "")}.get(c, v)
        f = e(text)
        if s["cap"]:
            n += 1
            caps[s["tag"]] = f"c{n}"
            f = b"(?P<c%d>" % n + f + b")"
        rx += sep + f
        toks += {"lt": ["'", v], "p": [v + ("+" if v == ":" and t["j"] else "")]}.get(c, [text])
    return rx + b" *", toks, caps


def judge(h, a):
    if not a.startswith("{"):
        return f"the program died: {a}"
    a = json.loads(a)
    rx, toks, caps = pattern(h)
    out = a["out"].encode()
    m = re.fullmatch(rx, out)
    if not m:
        return f"printed {a['out']!r}, which is not a form of {toks}"
    if not a["same"]:
        return "the printing functions disagree"
    if a["back"]:
        if a["back"][0] != toks:
            return f"printed {a['out']!r} reads back as {a['back'][0]}, not as {toks}"
        if not a["back"][1]:
            return f"printing what was read back from {a['out']!r} changes it"
    if a["extra"]:
        return "provenance for tags that do not exist"
    fmt = out.replace(b"\n", b"\n\n  ")
    for which, text in (("p1", out), ("p2", fmt)):
        for k, p in enumerate(a[which], 1):
            if k not in caps:
                if p:
                    return f"tag {k} captured nothing, but {p} is recorded"
                continue
            s, e = m.span(caps[k])
            if which == "p2":
                s, e = (x + 3 * out[:x].count(b"\n") for x in (s, e))
            want = [s, e, f'dir/"f{k}"', str(10 * k), str(10 * k + 5)]
            if p != want:
                return f"tag {k} in {text.decode()!r} is recorded as {p}, expected {want}"
    return None


def run(c):
    S = lambda xs: set(xs)
    P = ["+", "-", "*", "/", ":", "<", "=", "&", ";", ".", "#", "!"]
    COMN, TXTN = {str(i) for i in range(len(COMS))}, {str(i) for i in range(len(TEXTS))}
    ids, lits = ["a", "r", "b", "mut"], ["42", '"s"', "'c'", "1.5", 'b"x"', "7u8"]
    jobs = [
        ("every triple of tokens", dict(Ids={"a", "b", "r"}, Lits={"42", '"s"'}, Puncts=S(P), Coms={"0"}, Texts={"0"}, Delims={"("}, MaxLen=3, MaxDepth=1, Capture=False), None),
        ("every comment and text", dict(Ids={"a"}, Lits={"42"}, Puncts={":"}, Coms=COMN, Texts=TXTN, Delims=S(PAIR), MaxLen=c.pick(3, 4), MaxDepth=1, Capture=False), None),
        ("colons and slashes", dict(Ids={"a"}, Lits="={}", Puncts={":", "/", "*", "<"}, Coms="={}", Texts="={}", Delims={"{"}, MaxLen=c.pick(5, 6), MaxDepth=1, Capture=False), None),
        ("tags and captures", dict(Ids={"a", "b"}, Lits="={}", Puncts={","}, Coms={"0"}, Texts="={}", Delims={"["}, MaxLen=c.pick(7, 8), MaxDepth=1, Capture=True), None),
        ("random", dict(Ids={"a", "aa", "r", "b", "mut", "r#type"}, Lits=S(lits), Puncts=S(P + [",", ">", "$", "?"]), Coms=COMN, Texts=TXTN, Delims=S(PAIR), MaxLen=30, MaxDepth=4, Capture=True), c.pick(400, 8000)),
    ]

    def one(j):
        kw = dict(emit="Emit", view="view") if j[2] is None else dict(emit="EmitLast", simulate=j[2], depth=31, seed=c.seed)
        return tlc("Tokens", j[1], ["Glue", "Nested"], workers=4, **kw)
    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(harness_bin, "tokens")
        res = list(ex.map(one, jobs))
        b = fb.result()
    for j, r in zip(jobs, res):
        c.add_tlc(r, j[0])
        hs = r.histories
        for h in hs:
            for s in h:
                if s["t"]["c"] in ("com", "lity"):
                    s["t"]["v"] = (COMS if s["t"]["c"] == "com" else TEXTS)[int(s["t"]["v"])]
        for h, a in zip(hs, run_sharded(b, [json.dumps(h) for h in hs])):
            c.traces += 1
            w = judge(h, a)
            if w:
                c.violation(w, {"tokens": h, "answer": a[:3000]})
        if hs:
            c.sample([s["t"] for s in hs[-1]][:12])
