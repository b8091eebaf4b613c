"""E05: mutable aliasing (spec/Alias.tla), on the library and on generated functions."""
import random
from vf import *
from e2e import *

#        size slice  mut   ref   rust                          C++ argument at (s, n)
K = {
    "mu8": (1, 0, 1, 1, "&{}mut u8", "A[{s}]"),
    "u8": (1, 0, 0, 1, "&{}u8", "A[{s}]"),
    "mP": (3, 0, 1, 1, "&{}mut P", "at<M::P>({s})"),
    "P": (3, 0, 0, 1, "&{}P", "at<M::P>({s})"),
    "mA": (2, 0, 1, 1, "&{}mut [u8; 2]", "at<std::array<uint8_t, 2>>({s})"),
    "A": (2, 0, 0, 1, "&{}[u8; 2]", "at<std::array<uint8_t, 2>>({s})"),
    "msl": (1, 1, 1, 1, "&{}mut [u8]", "rs_std::SliceRef<uint8_t>(A + {s}, {n})"),
    "sl": (1, 1, 0, 1, "&{}[u8]", "rs_std::SliceRef<const uint8_t>(A + {s}, {n})"),
    "str": (1, 1, 0, 1, "&{}str", "rs_std::StrRef::FromUtf8(std::string_view((char*)A + {s}, {n})).value()"),
    "mslP": (3, 1, 1, 1, "&{}mut [P]", "rs_std::SliceRef<M::P>(&at<M::P>({s}), {n})"),
    "slA": (2, 1, 0, 1, "&{}[[u8; 2]]", "rs_std::SliceRef<const std::array<uint8_t, 2>>(&at<std::array<uint8_t, 2>>({s}), {n})"),
    "Tu": (2, 0, 0, 1, "&{}(u8, u8)", "at<rs_std::Tuple<uint8_t, uint8_t>>({s})"),
    "mO": (2, 0, 1, 1, "&{}mut Option<u8>", "at<rs_std::Option<uint8_t>>({s})"),
    # shared references to types with interior mutability are exempt, values are no references
    "Q": (2, 0, 0, 0, "&{}Q", "at<M::Q>({s})"),
    "mQ": (2, 0, 1, 1, "&{}mut Q", "at<M::Q>({s})"),
    "slQ": (2, 1, 0, 0, "&{}[Q]", "rs_std::SliceRef<const M::Q>(&at<M::Q>({s}), {n})"),
    "val": (1, 0, 0, 0, "u8", "A[{s}]"),
    "ptr": (1, 0, 0, 0, "*mut u8", "A + {s}"),
    "vP": (3, 0, 0, 0, "P", "at<M::P>({s})"),
}
POINTER = {"mu8", "u8", "mP", "P", "mA", "A", "Tu", "mO", "Q", "mQ"}
RUST = r'''
#![allow(unused, static_mut_refs)]
use std::cell::Cell;
static mut LOG: Vec<(usize, usize)> = Vec::new();
static mut CALLS: usize = 0;
#[no_mangle] extern "C" fn t_get(out: *mut usize) -> usize { unsafe { let n = LOG.len(); for (i, x) in LOG.drain(..).enumerate() { *out.add(2 * i) = x.0; *out.add(2 * i + 1) = x.1; } let c = CALLS; CALLS = 0; c * 100 + n } }
fn end() { unsafe { CALLS += 1 } }
fn rec<T: ?Sized>(p: *const T, n: usize) { unsafe { LOG.push((p as *const u8 as usize, n)) } }
#[derive(Clone, Copy)] #[repr(C)] pub struct P { pub a: u8, pub b: u8, pub c: u8 }
#[repr(C)] pub struct Q { pub a: Cell<u8>, pub b: u8 }
#[repr(C)] pub struct AnyTr(u8);
'''


def rust_fn(n, form, sig):
    lt = "'a " if form["lt"] else ""
    ps, body = [], ""
    for i, k in enumerate(sig):
        nm = f"p{i}"
        if i == 0 and form["recv"] != "none":
            nm = "self"
            ps.append({"mP": f"&{lt}mut self", "P": f"&{lt}self", "vP": "self"}[k])
        else:
            ps.append(f"p{i}: " + K[k][4].format(lt))
        if K[k][1]:
            body += f"rec({nm}.as_ptr(), {nm}.len()); "
        elif k in ("val", "vP"):
            body += "rec(1 as *const u8, 1); "
        else:
            body += f"rec({'' if k == 'ptr' else '&raw const *'}{nm}, 1); "
    head = f"fn f{n}{'<' + lt.strip() + '>' if lt else ''}({', '.join(ps)}) {{ {body}end() }}"
    if form["recv"] == "none":
        return "pub " + head
    if form["recv"] == "self":
        return f"impl P {{ pub {head} }}"
    return f"pub trait T{n} {{ {head.split(' {')[0]}; }} impl T{n} for P {{ {head} }}"


CXX = r'''
#include <csetjmp>
#include <csignal>
#include <iostream>
#include <sstream>
#include "MOD.h"
namespace M = ::MOD;
extern "C" size_t t_get(size_t*);
static sigjmp_buf jb;
static void on_abort(int) { siglongjmp(jb, 1); }
alignas(16) static uint8_t A[64];
template <class T> T& at(int s) { return *reinterpret_cast<T*>(A + s); }
static int s[8], n[8];
static void call(int f) {
  switch (f) {
CASES
  }
}
int main() {
  signal(SIGABRT, on_abort);
  for (auto& x : A) x = 1;
  std::string l;
  while (std::getline(std::cin, l)) {
    std::istringstream in(l);
    int f, k = 0;
    in >> f;
    while (in >> s[k] >> n[k]) k++;
    volatile int no = 1;
    if (sigsetjmp(jb, 1) == 0) { call(f); no = 0; }
    size_t o[16], c = t_get(o);
    std::cout << "=> " << no << " " << c / 100;
    for (size_t i = 0; i < c % 100; i++) std::cout << " " << (o[2 * i] >= (size_t)A && o[2 * i] <= (size_t)A + 64 ? (long)(o[2 * i] - (size_t)A) : -1) << " " << o[2 * i + 1];
    std::cout << std::endl;
  }
}
'''


def case(n, form, sig):
    args = []
    for i, k in enumerate(sig):
        a = K[k][5].format(s=f"s[{i}]", n=f"n[{i}]")
        args.append("&" + a if form["lt"] and k in POINTER and not (i == 0 and form["recv"] == "self") else a)
    if form["recv"] == "none":
        e = f"M::f{n}({', '.join(args)})"
    elif form["recv"] == "self":
        e = f"{args[0]}.f{n}({', '.join(args[1:])})"
    else:
        e = f"rs_std::impl<M::P, M::T{n}>::f{n}({', '.join(args)})"
    return f"    case {n}: {e}; break;"


def expected(h):
    if h["no"]:
        return "1 0"
    out = []
    for k, (s, n) in zip(h["sig"], h["pl"]):
        out.append("-1 1" if k in ("val", "vP") else f"{s if n else -1} {n}")
    return "0 1 " + " ".join(out)


def tl(names):
    return "={" + ",".join(f"[name |-> {tla_value(k)}, size |-> {K[k][0]}, slice |-> {tla_value(bool(K[k][1]))}, mut |-> {tla_value(bool(K[k][2]))}, ref |-> {tla_value(bool(K[k][3]))}]" for k in names) + "}"


def fm(*fs):
    return "={" + ",".join(f"[recv |-> {tla_value(r)}, lt |-> {tla_value(bool(l))}]" for r, l in fs) + "}"


def run(c):
    generator(); stdlib()
    free = [k for k in K if k != "vP"]
    D = dict(Self={"mP", "P", "vP"}, MaxCalls=1)
    sp = tl(["msl", "sl"])
    jobs = [
        ("lib", "up to 4 spans in every placement", dict(D, Kinds=sp, Forms=fm(("none", 0)), MinParams=0, MaxParams=c.pick(3, 4), Arena=c.pick(4, 3), MaxSlice=4), None),
        ("lib", "up to 8 spans, random", dict(D, Kinds=sp, Forms=fm(("none", 0)), MinParams=2, MaxParams=8, Arena=30, MaxSlice=8, MaxCalls=12), c.pick(1500, 30000)),
        ("gen", "all pairs of kinds in every placement", dict(D, Kinds=tl(free), Forms=fm(("none", 0)), MinParams=2, MaxParams=2, Arena=c.pick(4, 6), MaxSlice=3), None),
        ("gen", "methods, trait methods and named lifetimes", dict(D, Kinds=tl(list(K)), Forms=fm(("self", 0), ("self", 1), ("trait", 0)), MinParams=2, MaxParams=2, Arena=5, MaxSlice=2), None),
        ("gen", "random signatures", dict(D, Kinds=tl(list(K)), Forms=fm(("none", 0), ("none", 1), ("self", 0), ("self", 1), ("trait", 0)), MinParams=3, MaxParams=6, Arena=14, MaxSlice=3, MaxCalls=c.pick(15, 40)), c.pick(40, 300)),
    ]

    def one(j):
        p = j[2]
        kw = dict(view="view") if j[3] is None else dict(simulate=j[3], seed=c.seed, depth=p["MaxParams"] + 2 + (p["MaxParams"] + 1) * p["MaxCalls"])
        return tlc("Alias", p, ["SharedOnly", "Known"], workers=4, emit="Emit", **kw)
    with ThreadPoolExecutor(5) as ex:
        fb = ex.submit(cxx_harness, "alias", ["main.cc", SUPPORT_SRC[0]])
        res = list(ex.map(one, jobs))
        lib = fb.result()
    by, spans = {}, []
    for j, r in zip(jobs, res):
        c.add_tlc(r, j[1])
        for h in r.histories:
            h = h[0]
            if j[0] == "lib":
                spans.append(h)
            else:
                by.setdefault(json.dumps([h["form"], h["sig"]]), []).append(h)
    lines = [" ".join(f"{int(k == 'msl')} {s} {n}" for k, (s, n) in zip(h["sig"], h["pl"])) for h in spans]
    for h, l, a in zip(spans, lines, run_sharded(lib, lines)):
        c.traces += 1
        w = str(int(h["no"])) * 3
        if a != w:
            c.violation(f"references {', '.join(('&mut ' if k == 'msl' else '&') + f'[{s}..{s + n})' for k, (s, n) in zip(h['sig'], h['pl']))}: "
                        f"expected {'a refusal' if h['no'] else 'no refusal'}, got {a} (HasMutableAliasing, CheckNoMutableAliasing, HasMutableAliasingSpans)", {"history": h, "answer": a})
    keys = sorted(by)
    random.Random(c.seed).shuffle(keys)
    size = max(1, (len(keys) + 7) // 8)
    groups = [keys[i:i + size] for i in range(0, len(keys), size)]

    def work(ig):
        i, g = ig
        fs = [json.loads(k) for k in g]
        cr = Crate(f"alias{i}", RUST + "\n".join(rust_fn(n, *f) for n, f in enumerate(fs)))
        try:
            cc = CXX.replace("MOD", cr.name).replace("CASES", "\n".join(case(n, *f) for n, f in enumerate(fs)))
            d = cr.build(cc, sources=SUPPORT_SRC)
            todo = [(n, h) for n, k in enumerate(g) for h in by[k]]
            return todo, run_sharded(d, [f"{n} " + " ".join(f"{s} {x}" for s, x in h["pl"]) for n, h in todo], n=1)
        except GeneratedCodeError as e:
            return [], [("the generated functions cannot be used", {"error": str(e), "crate": cr.src})]
        finally:
            cr.clean()
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for todo, ans in ex.map(work, enumerate(groups)):
            if not todo:
                c.violation(f"{ans[0][0]}: {ans[0][1]['error']}", ans[0][1])
            for (_, h), a in zip(todo, ans):
                n += 1
                w = expected(h)
                if a != w:
                    c.violation(f"{describe(h)}: expected {'a refusal' if h['no'] else w}, got {a}", {"call": h, "expected": w, "answer": a})
    c.traces += n
    c.sample(by[keys[0]][0])
    c.extra.update({"functions": len(keys), "generated_calls": n, "library_calls": len(spans)})
    log(f"[E05] {len(keys)} functions, {n} calls; {len(spans)} placements on the library")


def describe(h):
    ps = [f"{K[k][4].format('')} at {s}..{s + n * K[k][0]}" for k, (s, n) in zip(h["sig"], h["pl"])]
    return f"call ({', '.join(ps)}) [{h['form']['recv']}{', named lifetime' if h['form']['lt'] else ''}]"
