"""S03: bridged values (spec/Bridge.tla), on the codecs and through generated functions."""
import random
from vf import *
from e2e import *

H = os.path.join(VERIF, "harness", "bridge")
M64 = (1 << 64) - 1
SIZE = {"u8": 1, "i16": 2, "i32": 4, "u64": 8, "f32": 4, "f64": 8, "bool": 1, "char": 4, "big": 16, "ptr": 8, "mptr": 8, "sl": 16, "msl": 16,
        "own": 8, "box": 8, "proto": 8}
ARITY = {"opt": 1, "pair": 2, "one": 1, "two": 2}
ESIZE = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "f32": 4, "f64": 8, "bool": 1, "char": 4,
         "ptr": 8, "mptr": 8, "sl": 16, "msl": 16, "own": 8, "cp": 12, "box": 8, "ref": 8}


def rec(d):
    return "=[" + ", ".join(f"{k} |-> {v}" for k, v in sorted(d.items())) + "]"


# ------------------------------------------------------------------ values

def stream(seed, i):
    if seed == 0:
        return 0
    if seed == 1:
        return M64
    z = (seed * 1000 + i) * 0x9E3779B97F4A7C15 & M64
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9 & M64
    z = (z ^ (z >> 27)) * 0x94D049BB133111EB & M64
    return z ^ (z >> 31)


def text(k, v):
    h = lambda *xs: "".join(f"{x:x};" for x in xs)
    if k in ("sl", "msl"):
        return h((v | 8) & ~7 & M64 if v >> 40 else 0, v >> 40)
    if k == "big":
        return h(v, (v + 1) & 0xFFFFFFFF, (v + 2) & 0xFFFF, (v + 3) & 0xFF, (v + 4) & 0xFF)
    if k == "cp":
        return h(v & 0xFF, (v + 1) & 0xFFFFFFFF, (v + 2) & 0xFFFF)
    if k == "char":
        c = v % 0x10F800
        return h(c + 0x800 if c >= 0xD800 else c)
    if k == "bool":
        return h(v & 1)
    if k == "ref":
        return h(v & 0xFF)
    bits = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "f32": 32}.get(k, 64)
    return h(v & ((1 << bits) - 1))


def parse(h):
    """history -> (tree, presence bits, leaves, path, summary)"""
    steps = iter(h)
    bits, leaves = [], []

    def tree():
        s = next(steps)
        if s["op"] == "leaf":
            if s["live"]:
                leaves.append(s["k"])
            return [s["k"]]
        if s["k"] == "opt" and s["live"]:
            bits.append(s["there"])
            leaves.append("S" if s["there"] else "N")
        return [s["k"]] + [tree() for _ in range(ARITY_ALL[s["k"]])]
    t = tree()
    rest = list(steps)
    path = rest[0]["side"] + "".join(s["side"] for s in rest if s["op"] == "decode")
    return t, sum(b << i for i, b in enumerate(bits)), leaves, path, rest[0]


ARITY_ALL = {"opt": 1, "pair": 2, "one": 1, "two": 2, "tup0": 0, "tup1": 1, "tup3": 3, "tup4": 4}


def show(leaves, seed):
    out, i = "", 0
    for k in leaves:
        if k in "SN":
            out += k
        else:
            i += 1
            out += text(k, stream(seed, i))
    return out


# ------------------------------------------------------------------ the codecs themselves

def spell(t):
    return json.dumps([t[0].rstrip("0134") if t[0].startswith("tup") else t[0]] + [json.loads(spell(x)) for x in t[1:]])


def direct(c, hs):
    by = {}
    for h in hs:
        p = parse(h)
        by.setdefault(json.dumps(p[0]), []).append((p, h))
    types = sorted(by)
    c.extra["codec_types"] = len(types)
    answers = run_sharded(harness_bin("bridge"), [spell(json.loads(t)) for t in types], n=2)
    bad = [(t, a) for t, a in zip(types, answers) if not a.startswith("[")]
    if bad:
        return c.violation(f"{bad[0][0]} cannot be spelled: {bad[0][1][:300]}", {"types": bad[:5]})
    names = [json.loads(a) for a in answers]
    d = tempfile.mkdtemp(prefix="bridge-", dir=ensure(os.path.join(WORK, "tmp")))
    try:
        open(d + "/vtcore.rs", "w").write("#![allow(unused, improper_ctypes)]\n" + open(H + "/rt.rs").read() + open(H + "/direct.rs").read())
        shards = [range(i, len(names), 8) for i in range(8)]
        for i, sh_ in enumerate(shards):
            body = "\n".join(f"  t[{k}] = vt::ops<{names[k][2]}>([] {{ return {names[k][3]}; }});" for k in sh_)
            open(f"{d}/s{i}.rs", "w").write("#![allow(unused)]\npub use vtcore::*;\npub fn reg(t: &mut Vec<Option<Box<dyn Ops>>>) {\n" + "".join(
                f"t[{k}] = Some(Box::new(For::<{names[k][0]}>(|| {names[k][1]})));\n" for k in sh_) + "}\n")
            open(f"{d}/t{i}.cc", "w").write(f'#include <vector>\n#include "rt.h"\nvoid reg{i}(std::vector<vt::Ops*>& t) {{\n{body}\n}}\n')
        open(d + "/table.cc", "w").write("#include <vector>\n#include \"rt.h\"\n" + "".join(f"void reg{i}(std::vector<vt::Ops*>&);\n" for i in range(8)) +
                                         f"std::vector<vt::Ops*>& table() {{ static auto t = [] {{ std::vector<vt::Ops*> t({len(names)}); " + " ".join(f"reg{i}(t);" for i in range(8)) + " return t; }(); return t; }\n")
        g = generator()

        def cxx(f):
            rc, _, e = sh(["clang++", "-std=c++20", "-O0", "-Wno-everything", "-fno-color-diagnostics", "-I", REPO, "-I", H, "-c", f, "-o", d + "/" + os.path.basename(f) + ".o"], timeout=600)
            return None if rc == 0 else e

        ext = ["--extern", f"bridge_rust={g['bridge_rust']}", "--extern", f"vtcore={d}/libvtcore.rlib", "-L", d, "-L", g["dir"]]

        def rs(n, kind="rlib", *more):
            rc, _, e = sh(["rustc", "--edition", "2021", "--crate-type", kind, "-Awarnings", "-Cdebuginfo=0", f"{d}/{n}.rs", "--out-dir", d, *ext, *more], env=rust_env(), timeout=600)
            return None if rc == 0 else e
        open(d + "/direct.rs", "w").write("thread_local! { static TABLE: Vec<Option<Box<dyn vtcore::Ops>>> = { let mut t = Vec::new(); t.resize_with(" + str(len(names)) + ", || None); " +
                                          "".join(f"s{i}::reg(&mut t); " for i in range(8)) + "t }; }\nfn table(t: usize, f: &mut dyn FnMut(&dyn vtcore::Ops)) { TABLE.with(|x| f(&**x[t].as_ref().unwrap())) }\n"
                                          "#[no_mangle] fn vt_table() { vtcore::set_table(table) }\n#[no_mangle] extern \"C\" fn rs_init() { vt_table() }\n")
        with ThreadPoolExecutor(12) as ex:
            f = [ex.submit(cxx, x) for x in [f"{d}/t{i}.cc" for i in range(8)] + [d + "/table.cc", H + "/direct.cc", H + "/registry.cc"]]
            es = [rs("vtcore")]
            es += [x.result() for x in [ex.submit(rs, f"s{i}") for i in range(8)]]
            es.append(rs("direct", "staticlib", *[a for i in range(8) for a in ("--extern", f"s{i}={d}/libs{i}.rlib")]))
            es += [x.result() for x in f]
        for e in es:
            if e:
                c.violation("a composition of bridged types does not compile: " + first_errors(e), {"error": e[:3000]})
        if any(es):
            return
        rc, _, e = sh(f"clang++ {d}/*.o {d}/libdirect.a -o {d}/driver -lpthread -ldl -lm", timeout=300)
        if rc:
            raise ToolError("linking the codec driver: " + e[:2000])
        lines, meta = [], []
        for k, t in enumerate(types):
            for (p, h) in by[t]:
                for seed in (0, 1, 2 + c.seed):
                    lines.append(f"{k} {seed} {p[1]} {p[3]}")
                    meta.append((p, seed, h))
        for (p, seed, h), a in zip(meta, run_sharded(d + "/driver", lines)):
            c.traces += 1
            w = judge_direct(p, seed, a)
            if w:
                c.violation(w, {"type": p[0], "seed": seed, "path": p[3], "answer": a, "history": h})
        if meta:
            c.sample({"type": meta[-1][0][0], "path": meta[-1][0][3], "shown": show(meta[-1][0][2], meta[-1][1])})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge_direct(p, seed, a):
    t, bits, leaves, path, summ = p
    if len(a.split(" ")) != 10:
        return f"{json.dumps(t)} {path}: {a[:200]}"
    shown, ok, before, after, bad, obj, rsz, csz, rb, cb = a.split(" ")
    want = show(leaves, seed)
    for i, x in enumerate(shown.split("|")[:-1]):
        if x != want:
            return f"{json.dumps(t)} {path}: after {i} trips the value is {x}, it was {want}"
    if ok != "ok":
        return f"{json.dumps(t)} {path}: the encoder wrote outside its buffer"
    if int(before) != summ["own"] or int(after) != 0 or int(bad) != 0:
        return f"{json.dumps(t)} {path}: {summ['own']} owned values, {before} alive after the trips, {after} after the drop, {bad} double drops"
    own = sum(k == "own" for k in leaves)
    if int(obj) != own * ((path[-1] == "r") - (path[0] == "r")):
        return f"{json.dumps(t)} {path}: {obj} C++ objects too many or too few destroyed"
    if rsz != csz:
        return f"{json.dumps(t)}: Rust encodes {rsz} bytes, C++ {csz}"
    cb = cb[:-1]
    if not any(k in ("box", "proto") or seed == 0 and k in ("sl", "msl") for k in leaves):
        if rb != cb:
            return f"{json.dumps(t)}: Rust encodes {rb}, C++ {cb}"
        if (len(rb) - rb.count(".")) // 2 != summ["used"]:
            return f"{json.dumps(t)}: {rb} holds {(len(rb) - rb.count('.')) // 2} bytes of data, the value has {summ['used']}"
    return None


# ------------------------------------------------------------------ through generated functions

RT = {"ptr": "*const u32", "mptr": "*mut u64", "sl": "*const [u16]", "msl": "*mut [u32]", "own": "Tk", "cp": "Cp", "box": "Bx", "ref": "&'static u8"}
CT = {"bool": "bool", "char": "rs_std::char_", "f32": "float", "f64": "double", "usize": "uintptr_t", "isize": "intptr_t", "ptr": "const uint32_t*", "mptr": "uint64_t*",
      "sl": "rs_std::SliceRef<const uint16_t>", "msl": "rs_std::SliceRef<uint32_t>", "own": "M::Tk", "cp": "M::Cp", "box": "vt::Tk", "ref": "const uint8_t*"}
RUST = r"""
#![allow(unused, improper_ctypes)]
use bridge_rust::{CrubitAbi, Encoder, Decoder, transmute_abi};
pub struct Tk { id: u64, pad: [u8; 3] }
impl Default for Tk { fn default() -> Self { Tk { id: 0, pad: [0; 3] } } }
impl Drop for Tk { fn drop(&mut self) { if self.id != 0 { unsafe { tk_drop(self.id) } } } }
impl Val for Tk { fn make(s: &mut Src) -> Self { unsafe { Tk { id: tk_new(s.v()), pad: [0; 3] } } } fn show(&self, o: &mut String) { hex(o, unsafe { tk_val(self.id) }) } }
impl Tk { pub fn mk(v: u64) -> Tk { Tk { id: unsafe { tk_new(v) }, pad: [0; 3] } } pub fn val(&self) -> u64 { unsafe { tk_val(self.id) } } }
#[derive(Clone, Copy)] #[repr(C)] pub struct Cp { pub a: u8, pub b: u32, pub c: u16 }
impl Val for Cp { fn make(s: &mut Src) -> Self { let v = s.v(); Cp { a: v as u8, b: v.wrapping_add(1) as u32, c: v.wrapping_add(2) as u16 } } fn show(&self, o: &mut String) { hex(o, self.a as u64); hex(o, self.b as u64); hex(o, self.c as u64) } }
static BYTES: [u8; 256] = { let mut b = [0; 256]; let mut i = 0; while i < 256 { b[i] = i as u8; i += 1; } b };
impl Val for &'static u8 { fn make(s: &mut Src) -> Self { &BYTES[(s.v() & 255) as usize] } fn show(&self, o: &mut String) { hex(o, **self as u64) } }
#[crubit_annotate::cpp_bridge(cpp_type = "vt::Tk", bridge_abi_cpp = "::vt::BoxTk", bridge_abi_rust = "BxAbi")]
pub struct Bx(*mut core::ffi::c_void);
impl Drop for Bx { fn drop(&mut self) { unsafe { box_drop(self.0) } } }
impl Val for Bx { fn make(s: &mut Src) -> Self { unsafe { Bx(box_new(s.v())) } } fn show(&self, o: &mut String) { hex(o, unsafe { box_val(self.0) }) } }
pub struct BxAbi;
unsafe impl CrubitAbi for BxAbi {
    type Value = Bx;
    const SIZE: usize = core::mem::size_of::<*mut core::ffi::c_void>();
    fn encode(self, v: Bx, e: &mut Encoder) { let v = core::mem::ManuallyDrop::new(v); transmute_abi().encode(v.0, e) }
    unsafe fn decode(self, d: &mut Decoder) -> Bx { Bx(unsafe { transmute_abi().decode(d) }) }
}
#[crubit_annotate::cpp_bridge(cpp_type = "vt::One", bridge_abi_cpp = "::vt::OneAbi", bridge_abi_rust = "OneAbi")]
pub struct One<A>(A);
#[crubit_annotate::cpp_bridge(cpp_type = "std::pair", bridge_abi_cpp = "crubit::PairAbi", bridge_abi_rust = "PairAbi")]
pub struct Pair<A, B>(A, B);
impl<A: Val> Val for One<A> { fn make(s: &mut Src) -> Self { One(A::make(s)) } fn show(&self, o: &mut String) { self.0.show(o) } }
impl<A: Val, B: Val> Val for Pair<A, B> { fn make(s: &mut Src) -> Self { Pair(A::make(s), B::make(s)) } fn show(&self, o: &mut String) { self.0.show(o); self.1.show(o) } }
pub struct OneAbi<A>(pub A);
pub struct PairAbi<A, B>(pub A, pub B);
unsafe impl<A: CrubitAbi> CrubitAbi for OneAbi<A> {
    type Value = One<A::Value>;
    const SIZE: usize = A::SIZE;
    fn encode(self, v: Self::Value, e: &mut Encoder) { self.0.encode(v.0, e) }
    unsafe fn decode(self, d: &mut Decoder) -> Self::Value { One(unsafe { self.0.decode(d) }) }
}
unsafe impl<A: CrubitAbi, B: CrubitAbi> CrubitAbi for PairAbi<A, B> {
    type Value = Pair<A::Value, B::Value>;
    const SIZE: usize = A::SIZE + B::SIZE;
    fn encode(self, v: Self::Value, e: &mut Encoder) { self.0.encode(v.0, e); self.1.encode(v.1, e) }
    unsafe fn decode(self, d: &mut Decoder) -> Self::Value { let a = unsafe { self.0.decode(d) }; Pair(a, unsafe { self.1.decode(d) }) }
}
fn out<T: Val>(x: &T) { let mut o = String::new(); x.show(&mut o); o += "|"; unsafe { vt_log(o.as_ptr(), o.len()) } }
"""
MAIN = r"""
#include <iostream>
#include <sstream>
#include "rt.h"
#include "CRATE.h"
namespace M = ::CRATE;
void tk_reset(); long tk_live(); extern long tk_bad;
static std::string out;
extern "C" void vt_log(const char* p, size_t n) { out.append(p, n); }
namespace vt {
template <> struct V<M::Tk> { static M::Tk make(Src& s) { return M::Tk::mk(s.v()); } static void show(const M::Tk& x, std::string& o) { hex(o, x.val()); } };
template <> struct V<M::Cp> {
  static M::Cp make(Src& s) { uint64_t v = s.v(); M::Cp x = M::zero(); x.a = v; x.b = v + 1; x.c = v + 2; return x; }
  static void show(const M::Cp& x, std::string& o) { hex(o, x.a); hex(o, x.b); hex(o, x.c); }
};
// references are pointers here
static const uint8_t BYTES[256] = {ALLBYTES};
template <> struct V<const uint8_t*> { static const uint8_t* make(Src& s) { return BYTES + (s.v() & 255); } static void show(const uint8_t* const& x, std::string& o) { hex(o, *x); } };
}
template <class T> void show(const T& x) { vt::V<T>::show(x, out); out += "|"; }
template <class T, class G, class I, class K> void run(uint64_t seed, uint64_t bits, const std::string& path, G give, I id, K take) {
  bool c = path[0] == 'c';
  std::optional<T> x;
  size_t i = 1;
  if (c) { vt::Src s{seed, bits}; x.emplace(vt::V<T>::make(s)); show(*x); }
  else { x.emplace(give(seed, bits)); show(*x); i = 2; }
  while (i < path.size()) {
    if (i + 1 < path.size()) { std::optional<T> y(id(std::move(*x))); x.reset(); x.emplace(std::move(*y)); show(*x); i += 2; }
    else { take(std::move(*x)); x.reset(); i++; }
  }
}
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    std::istringstream in(l);
    size_t t; uint64_t seed, bits; std::string path;
    in >> t >> seed >> bits >> path;
    tk_reset();
    out.clear();
    switch (t) {
CASES
    }
    std::cout << "=> " << out << " " << tk_live() << " " << tk_bad << " " << vt::objects << std::endl;
  }
}
"""


def rty(t):
    if len(t) == 1:
        return RT.get(t[0], t[0])
    return {"opt": "Option", "one": "One", "pair": "Pair"}[t[0]] + "<" + ", ".join(map(rty, t[1:])) + ">"


def cty(t):
    if len(t) == 1:
        return CT.get(t[0], "u" not in t[0] and f"int{t[0][1:]}_t" or f"uint{t[0][1:]}_t")
    return {"opt": "std::optional", "one": "vt::One", "pair": "std::pair"}[t[0]] + "<" + ", ".join(map(cty, t[1:])) + ">"


def functions(c, hs):
    by = {}
    for h in hs:
        p = parse(h)
        by.setdefault(json.dumps(p[0]), []).append((p, h))
    types = sorted(by)
    c.extra["function_types"] = len(types)
    random.Random(c.seed).shuffle(types)
    groups = [types[i:i + 24] for i in range(0, len(types), 24)]

    def work(ig):
        i, g = ig
        fns, cases = "", ""
        for n, k in enumerate(g):
            t = json.loads(k)
            fns += f"pub fn give{n}(seed: u64, bits: u64) -> {rty(t)} {{ let x: {rty(t)} = Val::make(&mut Src::new(seed, bits)); out(&x); x }}\n"
            fns += f"pub fn id{n}(x: {rty(t)}) -> {rty(t)} {{ out(&x); x }}\npub fn take{n}(x: {rty(t)}) {{ out(&x) }}\n"
            cases += f"      case {n}: run<{cty(t)}>(seed, bits, path, [](auto... a) {{ return M::give{n}(a...); }}, []({cty(t)}&& x) {{ return M::id{n}(std::move(x)); }}, []({cty(t)}&& x) {{ M::take{n}(std::move(x)); }}); break;\n"
        src = RUST + open(H + "/rt.rs").read() + fns + "pub fn zero() -> Cp { Cp { a: 0, b: 0, c: 0 } }\n"
        cr = Crate(f"bridge{i}", src, rustc_args=support_externs())
        try:
            cc = MAIN.replace("CRATE", cr.name).replace("CASES", cases).replace("ALLBYTES", ", ".join(map(str, range(256))))
            d = cr.build(cc, flags=("-O0", "-I", H), sources=[H + "/registry.cc", *SUPPORT_SRC])
            todo = [(n, seed, p, h) for n, k in enumerate(g) for p, h in by[k] for seed in (0, 1, 2 + c.seed)]
            return todo, run_sharded(d, [f"{n} {seed} {p[1]} {p[3]}" for n, seed, p, h in todo], n=1), None
        except GeneratedCodeError as e:
            return [], [], (str(e), cr.src)
        finally:
            cr.clean()
    with ThreadPoolExecutor(8) as ex:
        for todo, ans, bad in ex.map(work, enumerate(groups)):
            if bad:
                c.violation(f"functions with bridged types cannot be used: {bad[0]}", {"crate": bad[1]})
            for (n, seed, p, h), a in zip(todo, ans):
                c.traces += 1
                w = judge_fn(p, seed, a)
                if w:
                    c.violation(w, {"type": p[0], "seed": seed, "path": p[3], "answer": a, "history": h})


def judge_fn(p, seed, a):
    t, bits, leaves, path, summ = p
    f = a.split(" ")
    if len(f) != 4:
        return f"{rty(t)} {path}: {a[:200]}"
    want = (show(leaves, seed) + "|") * len(path)
    if f[0] != want:
        return f"{rty(t)} {path}: seen as {f[0]}, expected {want}"
    if f[1:] != ["0", "0", "0"]:
        return f"{rty(t)} {path}: {f[1]} owned values never dropped, {f[2]} double drops, {f[3]} C++ objects too many or too few destroyed"
    return None


def run(c):
    generator(); stdlib()
    tup = dict(ARITY, tup0=0, tup1=1, tup3=3)
    few = {k: SIZE[k] for k in ("u8", "u64", "own", "box")}
    base = dict(Owned={"own", "box", "proto"}, MaxDepth=3, Starts={"r", "c"}, NoRoot="={}")
    D = [
        ("every leaf in every combinator", dict(base, Size=rec(SIZE), Arity=rec({k: 1 for k in ("opt", "one", "tup1")}), MaxNodes=3, MaxTrips=2, SameSide=True), None),
        ("every pair of leaves", dict(base, Size=rec(SIZE), Arity=rec({"pair": 2}), MaxNodes=3, MaxTrips=1, SameSide=True), None),
        ("every type of up to 4 parts", dict(base, Size=rec(few), Arity=rec(tup), MaxNodes=4, MaxTrips=c.pick(1, 2), SameSide=False), None),
        ("random types", dict(base, Size=rec(SIZE), Arity=rec(dict(tup, tup4=4)), MaxNodes=14, MaxDepth=5, MaxTrips=3, SameSide=True), c.pick(60, 800)),
    ]
    ebase = dict(Owned={"own", "box"}, SameSide=False, Starts={"r", "c"})
    E = [
        ("every leaf, generated functions", dict(ebase, Size=rec(ESIZE), Arity=rec({"opt": 1, "one": 1}), MaxNodes=3, MaxDepth=2, MaxTrips=2, NoRoot=set(ESIZE) - {"box"}), None),
        ("random types, generated functions", dict(ebase, Size=rec(ESIZE), Arity=rec({"opt": 1, "one": 1, "pair": 2}), MaxNodes=12, MaxDepth=4, MaxTrips=3, NoRoot=set(ESIZE)), c.pick(40, 500)),
    ]

    def one(j):
        kw = {} if j[2] is None else dict(simulate=j[2], depth=30, seed=c.seed)
        return tlc("Bridge", j[1], ["Fits", "Packed"], ["OneOwner"], emit="Emit", view="view", workers=4, **kw)
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, D + E))
    hs = [[], []]
    for j, r in zip(D + E, res):
        c.add_tlc(r, j[0])
        hs[j in E] += r.histories
    direct(c, hs[0])
    functions(c, hs[1])
