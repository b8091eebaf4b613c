"""Crates described by spec/Items.tla: their Rust source, what C++ must and must not see."""
import re
from vf import *
from e2e import *

FORMS = {"val": "T", "ref": "&'static T", "mref": "&'static mut T", "eref": "&T", "emref": "&mut T", "cptr": "*const T", "mptr": "*mut T",
         "opt": "Option<T>", "optref": "Option<&'static T>", "arr": "[T; 2]", "slice": "&'static [T]", "mslice": "&'static mut [T]", "eslice": "&[T]",
         "tup": "(T, u8)", "res": "Result<T, u8>", "rese": "Result<u8, T>", "vec": "Vec<T>", "fnp": 'extern "C" fn(&T) -> u8', "fnv": 'extern "C" fn(T)',
         "refref": "&'static &'static T", "refopt": "&'static Option<T>", "arropt": "[Option<T>; 2]", "resopt": "Result<Option<T>, u8>",
         "optoptref": "Option<Option<&'static T>>", "arrref": "[&'static T; 2]", "tupref": "(&'static T, u8)", "reftup": "&'static (T, u8)",
         "vecref": "&'static Vec<T>", "optvec": "Option<Vec<T>>", "mrefopt": "&'static mut Option<T>", "optres": "Option<Result<T, u8>>",
         "box": "Box<T>", "pin": "std::pin::Pin<&'static mut T>", "bx": "&'static Box<T>", "rng": "std::ops::Range<T>",
         "phantom": "std::marker::PhantomData<T>", "arrarr": "[[T; 2]; 2]", "ptrptr": "*const *const T", "optptr": "Option<*const T>",
         "slref": "&'static [&'static T]", "vecopt": "Vec<Option<T>>"}
GOOD_KINDS = {"struct", "tuple", "enumc", "enumr", "union", "alias", "fn", "method", "const", "trait", "impl"}
BAD_KINDS = {"zst", "gen", "empty", "gfn", "static", "dynfn", "cgfn", "implfn", "conststruct"}
CLASSES = {"copy", "plain", "dflt", "clone", "immov", "both"}
TYPES = {"struct", "tuple", "enumc", "enumr", "union", "zst", "gen", "empty"}
FNS = {"fn", "gfn", "dynfn", "cgfn", "implfn"}
INVARIANTS = ["Total", "NoLeak", "Closed", "Orderable", "Unambiguous"]


class World:
    """One crate's worth of declarations, in module w<k> of a larger crate."""

    def __init__(self, h, k, order=None):
        self.mods, self.items, self.uses, self.exps, self.verdicts = (h[x] for x in ("mods", "items", "uses", "exps", "verdicts"))
        self.h, self.k, self.order = h, k, order

    def name(self, key):
        return f"n{key}x{self.k}"

    def mname(self, m):
        return f"m{self.mods[m - 1]['key']}x{self.k}"

    def mpath(self, m):
        return [] if m <= 0 else self.mpath(self.mods[m - 1]["par"]) + [self.mname(m)]

    def base(self):
        return f"w{self.k}"

    def rpath(self, i):
        return "::".join(["crate", self.base()] + self.mpath(self.items[i - 1]["mod"]) + [self.name(self.items[i - 1]["key"])])

    def mention(self, u):
        t = self.rpath(u["tgt"]) + ("::<u8>" if self.items[u["tgt"] - 1]["kind"] == "gen" else "")
        return re.sub(r"\bT\b", t, FORMS[u["form"]])

    def decl(self, i):
        it = self.items[i - 1]
        k, n, us = it["kind"], self.name(it["key"]), [u for u in self.uses if u["at"] == i]
        vis = "pub" if it["pub"] else "pub(crate)"
        must = "#[crubit_annotate::must_bind] " if it["must"] else ""
        T = self.rpath(i)
        if k in ("struct", "tuple"):
            fs = [("pub", "u8")] + [("pub" if j % 3 != 1 else "", self.mention(u)) for j, u in enumerate(us)]
            if it["cls"] in ("dflt", "clone", "both", "immov"):
                fs.append(("", "Box<u8>"))
            body = "{ " + ", ".join(f"{p} f{j}: {t}" for j, (p, t) in enumerate(fs)) + " }" if k == "struct" else "(" + ", ".join(f"{p} {t}" for p, t in fs) + ");"
            o = f"{must}{vis} struct {n}{body}"
        elif k in ("enumc", "enumr"):
            vs = ["A", "B(u8)"] + [f"C{j}({self.mention(u)}, u16)" if j % 2 else f"C{j} {{ g: {self.mention(u)} }}" for j, u in enumerate(us)]
            if it["cls"] in ("dflt", "clone", "both", "immov"):
                vs.append("Z(Box<u8>)")
            o = ("#[repr(C)] " if k == "enumc" else "") + f"{must}{vis} enum {n} {{ {', '.join(vs)} }}"
        elif k == "union":
            return f"#[derive(Clone, Copy)] #[repr(C)] {vis} union {n} {{ " + ", ".join(["pub a: u8"] + [f"pub f{j}: {self.mention(u)}" for j, u in enumerate(us)]) + " }"
        elif k == "zst":
            return f"{must}#[derive(Clone, Copy)] {vis} struct {n};"
        elif k == "gen":
            return f"{must}#[derive(Clone, Copy)] {vis} struct {n}<T> {{ pub a: T }}"
        elif k == "empty":
            return f"{must}#[derive(Clone, Copy)] {vis} enum {n} {{}}"
        elif k == "alias":
            return f"{vis} type {n} = {self.mention(us[0])};"
        elif k in ("fn", "method"):
            ps = [f"_p{j}: {self.mention(u)}" for j, u in enumerate(us) if u["loc"] == "param"]
            r = [self.mention(u) for u in us if u["loc"] == "ret"]
            ret = f" -> {r[0]}" if r else ""
            if k == "fn":
                return f"{must}{vis} fn {n}({', '.join(ps)}){ret} {{ loop {{}} }}"
            return f"impl {self.rpath(it['own'])} {{ {must}{vis} fn {n}({', '.join(['&self'] * (it['key'] % 2) + ps)}){ret} {{ loop {{}} }} }}"
        elif k == "const":
            return f"{vis} const {n}: i32 = {it['key']};"
        elif k == "trait":
            return f"{vis} trait {n} {{ fn q{it['key']}(&self, x: u8) -> u8; }}"
        elif k == "impl":
            return f"impl {self.rpath(it['trt'])} for {self.rpath(it['own'])} {{ fn q{self.items[it['trt'] - 1]['key']}(&self, x: u8) -> u8 {{ x }} }}"
        elif k == "gfn":
            return f"{must}{vis} fn {n}<T>(_x: T) {{}}"
        elif k == "static":
            return f"{vis} static {n}: i32 = 1;"
        elif k == "dynfn":
            return f"{vis} fn {n}(_x: &dyn Send) {{}}"
        elif k == "cgfn":
            return f"{vis} fn {n}<const N: usize>(_x: [u8; N]) {{}}"
        elif k == "implfn":
            return f"{vis} fn {n}() -> impl Send {{}}"
        elif k == "conststruct":
            return f"{vis} const {n}: &[u8] = b\"{n}\";"
        else:
            raise ToolError(f"unknown kind {k}")
        c = it["cls"]
        if c == "copy":
            o += f" impl Clone for {T} {{ fn clone(&self) -> Self {{ *self }} }} impl Copy for {T} {{}}"
        if c in ("clone", "both"):
            o += f" impl Clone for {T} {{ fn clone(&self) -> Self {{ loop {{}} }} }}"
        if c in ("dflt", "both"):
            o += f" impl Default for {T} {{ fn default() -> Self {{ loop {{}} }} }}"
        return o

    def rust(self):
        """The order of the declarations: as the specification made them, or any other."""
        def module(m):
            here = [("i", i) for i in range(1, len(self.items) + 1) if self.home(i) == m]
            here += [("m", x) for x in range(1, len(self.mods) + 1) if self.mods[x - 1]["par"] == m]
            here += [("e", x) for x in range(len(self.exps)) if self.exps[x]["mod"] == m]
            if self.order:
                here = self.order.sample(here, len(here))
            o = ""
            for a, x in here:
                if a == "i":
                    o += self.decl(x) + "\n"
                elif a == "m":
                    o += ("#[doc(hidden)] " if self.mods[x - 1]["hid"] else "") + ("pub" if self.mods[x - 1]["pub"] else "pub(crate)") + f" mod {self.mname(x)} {{\n{module(x)}}}\n"
                else:
                    e = self.exps[x]
                    if e["kind"] == "glob":
                        o += "pub use " + "::".join(["crate", self.base()] + self.mpath(e["tgt"])) + "::*;\n"
                    else:
                        n = self.name(e["key"])
                        o += f"pub use {self.rpath(e['tgt'])}" + (f" as {n}" if e["key"] != self.items[e["tgt"] - 1]["key"] else "") + ";\n"
            return o
        return f"pub mod {self.base()} {{\n{module(0)}}}\n"

    def home(self, i):
        it = self.items[i - 1]
        return self.home(it["own"]) if it["mod"] < 0 else it["mod"]

    # ------------------------------------------------------------ predictions
    def cc(self, crate, place):
        return f"::{crate}::" + "::".join([self.base()] + [f"m{m}x{self.k}" for m in place[4]] + [self.name(place[5])])

    def probes(self, crate):
        """C++ declarations that compile exactly when the bound items are there."""
        o, used = [], []
        for i, it in enumerate(self.items, 1):
            v, k = self.verdicts[i - 1], it["kind"]
            if not v["bound"]:
                continue
            P = self.cc(crate, v["canon"]) if v["canon"] else ""
            offered = [self.cc(crate, p) for p in v["offered"]]
            others = [q for q in offered if q != P]
            if k in TYPES:
                o.append(f"static_assert(std::is_class_v<{P}> || std::is_union_v<{P}>); static_assert(sizeof({P}) > 0);")
                o += [f"static_assert(std::is_same_v<{q}, {P}>);" for q in others]
            elif k in FNS:
                o += [f"static_assert(std::is_function_v<std::remove_pointer_t<std::remove_reference_t<decltype({q})>>>);" for q in offered]
            elif k == "method":
                # the owner's name
                own = self.cc(crate, self.verdicts[it["own"] - 1]["canon"])
                o.append(f"static_assert(!std::is_void_v<decltype(&{own}::{self.name(it['key'])})>);")
            elif k == "const":
                o.append(f"static_assert({P} == {it['key']});")
            elif k == "trait":
                o += [f"static_assert(std::is_class_v<{q}>);" for q in offered]
            elif k == "impl":
                own, tr = (self.cc(crate, self.verdicts[it[x] - 1]["canon"]) for x in ("own", "trt"))
                o.append(f"static_assert(rs_std::impl<{own}, {tr}>::kIsImplemented);")
                used.append(f"(void)&rs_std::impl<{own}, {tr}>::q{self.items[it['trt'] - 1]['key']};")
            elif k == "alias":
                o += [f"static_assert(sizeof({q}) > 0);" for q in offered]
        return o + [f"void use_w{self.k}() {{ " + " ".join(used) + " }"]

    def seen(self):
        """The names C++ may see, and those it must not."""
        yes, every = set(), set()
        for i, it in enumerate(self.items, 1):
            v = self.verdicts[i - 1]
            k = it["kind"]
            ns = {self.name(p[5]) for p in v["names"]} | {self.name(it["key"])}
            every |= ns
            if v["bound"]:
                yes |= {self.name(p[5]) for p in v["offered"]} if it["mod"] >= 0 else {self.name(it["key"])} if k != "impl" else set()
        every |= {self.name(e["key"]) for e in self.exps if e["kind"] == "use"}
        hidden = {self.mname(m) for m in range(1, len(self.mods) + 1) if not self.open(m)}
        return yes, (every - yes) | hidden

    def open(self, m):
        return m == 0 or (self.mods[m - 1]["pub"] and self.open(self.mods[m - 1]["par"]))

    def explained(self):
        """(item, names under which the diagnostic may name it)."""
        return [(i, {self.name(p[5]) for p in self.verdicts[i - 1]["names"]} | {self.name(it["key"])})
                for i, it in enumerate(self.items, 1) if self.verdicts[i - 1]["explained"]]


COMMENT = re.compile(r"//[^\n]*|/\*.*?\*/|\"(?:[^\"\\\n]|\\.)*\"", re.S)


def tokens(header):
    return set(re.findall(r"[A-Za-z_]\w*", COMMENT.sub(" ", header)))


def diagnostics(header):
    """The names the comments of the header excuse: {name: reason}."""
    t = re.sub(r"\n\s*//", " ", "\n" + header)
    return {m[1].split("::")[-1]: m[2] for part in t.split("Error generating bindings for ")[1:] for m in [re.match(r"[\w ]+ `([^`]+)` defined at ([^\n]*)", part)] if m}


HEAD = "#![allow(warnings)]\n"
PROBE = "#include <type_traits>\n#include <cstddef>\n"


def build(crate, worlds, probes=True, extra=()):
    """Generates one crate holding the worlds and puts both outputs through their compilers.
    Raises GeneratedCodeError; returns the header and the error report."""
    c = Crate(crate, HEAD + "".join(w.rust() for w in worlds), extra=[f"--error-report-out={{dir}}/report.json"])
    c.extra = [f"--error-report-out={c.dir}/report.json", *extra]
    try:
        c.lib()
        c.generate()
        with open(f"{c.dir}/alone.cc", "w") as f:
            f.write(f'#include "{crate}.h"\n' + ("\n".join([PROBE] + [p for w in worlds for p in w.probes(crate)]) if probes else ""))
        c.cxx(f"{c.dir}/alone.cc", None, syntax_only=True)
        c.rust_impl()
        with open(c.h) as f:
            h = f.read()
        with open(f"{c.dir}/report.json") as f:
            return h, json.load(f)
    finally:
        if "VF_KEEP" not in os.environ:
            c.clean()
        else:
            log(c.dir)


def worlds_of(histories):
    seen, out = set(), []
    for h in histories:
        k = json.dumps(h[0], sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(h[0])
    return out


# ------------------------------------------------------------------- driving
ONE_EDGE = dict(MaxMods=0, MaxItems=2, MaxUses=1, MaxExps=0, MaxMusts=0, Kinds={"struct", "tuple", "enumc", "enumr", "union", "alias", "fn", "method"},
                Forms=set(FORMS), Ranks={1, 2}, Pubs={1}, Hids={0}, Neutral=True, Sampled=False)
LARGE = dict(MaxMods=3, MaxItems=12, MaxUses=14, MaxExps=4, MaxMusts=0, Classes=CLASSES, Ranks={1, 2, 3}, Hids={0, 1, 2, 3, 4}, Neutral=False, Sampled=True)
# `Option<&T>` and `Option<*const T>` are one C++ type (known finding "ref-ptr"), so a world has one or the other
NO_PTR, NO_REF = set(FORMS) - {"optptr"}, set(FORMS) - {"optref", "optoptref"}


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def culprits(crate, worlds, one, error):
    """When a crate of several worlds fails: which of them fail alone."""
    if len(worlds) == 1:
        return [(worlds[0], error)]
    out = []
    for w in worlds:
        try:
            one(crate, [w])
        except GeneratedCodeError as e:
            out.append((w, e))
            if len(out) == 3:
                break
    return out or [(worlds, error)]


def short(e):
    t = re.sub(r"/\S*/tmp/e2e-[^/]*/", "", str(e))
    return re.sub(r"x\d+", "", t)[:600]
