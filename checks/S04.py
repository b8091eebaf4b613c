"""S04: StrRef, char_, SliceRef, IteratorAdapter (spec/Text.tla, spec/Iter.tla, harness/text)."""
import random
from vf import *
CLASS = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF]
DEF = dict(Bytes="={}", Points="={}", MaxLen=0, Extra=0)


def bl(b):
    return f"{len(b)} " + " ".join(map(str, b))


def consteval_cases(c):
    """Construction at compile time: accepted exactly for valid constants."""
    def lit(b):
        return "".join(f"\\{x:03o}" for x in b)
    cases = [(f'constexpr rs_std::StrRef s = "{lit(b)}";', ok) for b, ok in
             ((b"", 1), (b"abc", 1), (b"\xc2\x80", 1), (b"\xef\xbf\xbf\xf4\x8f\xbf\xbf", 1), (b"\xed\x9f\xbf\xee\x80\x80", 1),
              (b"\xc0\x80", 0), (b"a\xed\xa0\x80", 0), (b"\xf4\x90\x80\x80", 0), (b"ab\xc2", 0), (b"\x80", 0), (b"\xe0\x9f\xbf", 0), (b"\xf0\x8f\xbf\xbf", 0), (b"\xff", 0))]
    cases += [(f'constexpr rs_std::StrRef s = std::string_view("{lit(b)}", {len(b)});', ok) for b, ok in ((b"a\0b", 1), (b"a\0\x80", 0))]
    cases += [(f"constexpr rs_std::char_ s = U'\\x{v:x}';", ok) for v, ok in ((0x41, 1), (0xd7ff, 1), (0xe000, 1), (0x10ffff, 1), (0xd800, 0), (0xdfff, 0), (0x110000, 0))]
    cases += [("constexpr rs_std::char_ s = 'a';", 1), ("constexpr rs_std::char_ s = u'\\xdbff';", 0), ("constexpr rs_std::char_ s = 65;", 0),
              ("rs_std::StrRef f(const char* p) { return p; }", 0), ("rs_std::StrRef f(std::string_view p) { return p; }", 0), ("rs_std::char_ f(char p) { return p; }", 0),
              ("rs_std::SliceRef<int> f(std::vector<int>& v) { return v; }", 0), ("rs_std::SliceRef<int> f(rs_std::SliceRef<const int> v) { return v; }", 0),
              ("rs_std::SliceRef<const int> f(rs_std::SliceRef<int> v) { return v; }", 1), ("rs_std::SliceRef<int> f(std::span<int> v) { return v; }", 1)]
    pre = '#include <vector>\n#include <span>\n#include "support/rs_std/char.h"\n#include "support/rs_std/slice_ref.h"\n#include "support/rs_std/str_ref.h"\n'
    d = ensure(os.path.join(WORK, "cxx", "text"))

    def one(ix):
        src, ok = cases[ix]
        p = os.path.join(d, f"ce{ix}.cc")
        open(p, "w").write(pre + src + "\n")
        rc, _, e = sh(["clang++", "-std=c++20", "-fsyntax-only", "-Wno-everything", "-I", REPO, p], timeout=120)
        return src, ok, rc == 0, e
    with ThreadPoolExecutor(8) as ex:
        for src, ok, got, e in ex.map(one, range(len(cases))):
            c.traces += 1
            if bool(ok) != got:
                c.violation(f"at compile time: {src} is {'accepted' if got else 'refused'}", {"source": src, "compiler": e[:1500]})


def run(c):
    binp = cxx_harness("text", ["main.cc", REPO + "/support/rs_std/char.cc"], ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
    rnd = random.Random(c.seed)
    S = lambda xs: "={" + ",".join(map(str, sorted(set(xs)))) + "}"
    pts = [0, 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff] + \
        [rnd.randrange(0x80, 0x120000) for _ in range(8)]
    jobs = [("all strings of class bytes", dict(Job="bytes", Bytes=S(CLASS), MaxLen=c.pick(3, 4), Extra=9), {}),
            ("all strings of two bytes", dict(Job="bytes", Bytes="=0..255", MaxLen=2, Extra=9), {}),
            ("valid strings of class bytes with one wrong byte", dict(Job="bytes", Bytes=S([0, 0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc2, 0xe0, 0xe1, 0xed, 0xf0, 0xf1, 0xf4, 0xf5]), MaxLen=c.pick(5, 6), Extra=0), {}),
            ("long strings", dict(Job="long", Bytes=S(CLASS), MaxLen=24, Extra=9), dict(simulate=c.pick(100, 3000), depth=25)),
            ("code points", dict(Job="chars", Points=S(pts)), {}),
            ("pairs of strings", dict(Job="pairs", Points=S([0, 0x61, 0x62, 0xe9, 0x20ac, 0xffff, 0x1f600]), MaxLen=2), {}),
            ("slices", dict(Job="slices", MaxLen=5), {})]

    def one(j):
        kw = dict(j[2])
        if kw:
            kw.update(seed=c.seed)
        return tlc("Text", dict(DEF, **j[1]), ["RoundTrip", "DecodedScalars"], [] if kw else ["DeadForever"], emit="Emit", view=None if kw else "view", workers=4, prune=False, **kw)
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, jobs))
        ri = tlc("Iter", dict(NA=3, MaxN=3, MaxLen=99), ["Bounded"], emit="Emit", view="view", workers=4)
    work = {}
    for j, r in zip(jobs, res):
        c.add_tlc(r, j[0])
        for h in r.histories:
            x = h[0]
            if x["k"] == "str":
                try:
                    d = bytes(x["b"]).decode()
                    assert x["ok"] and list(map(ord, d)) == x["cs"]
                except UnicodeDecodeError:
                    if x["ok"]:
                        raise ToolError(f"the specification accepts {x}")
                l = f"str {bl(x['b'])} {int(x['ok'])}"
            elif x["k"] == "char":
                l = f"char {x['c']} {x['d']} {int(x['ok'])} {int(x['okd'])} {x['cmp']} {int(x['d'] == 0)} {bl(x['enc'])}"
            elif x["k"] == "pair":
                l = f"pair {bl(x['a'])} {bl(x['b'])} {x['cmp']}"
            else:
                l = f"slice {x['i']} {x['n']} {x['j']} {x['m']} {int(x['eq'])} 5"
            work[l] = x
    c.add_tlc(ri, "iterator adapters")
    for h in ri.histories:
        l = f"i{h[0]['kind']} {h[0]['n']} " + " ".join(f"{s['op']} {s['a']} {s['b']} {s['r']} {' '.join(map(str, s['cur']))}" for s in h[1:])
        work[l] = h
    ls = list(work)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    for l, a in zip(ls, run_sharded(binp, ls, env=env)):
        c.traces += 1
        if a != "ok":
            c.violation(f"{l.split()[0]} {work[l] if not l.startswith('i') else l[:200]}: {a}", {"input": l, "expected": work[l], "answer": a})
    c.sample(work[ls[len(ls) // 3]])
    c.sample(work[ls[-1]])
    consteval_cases(c)
