"""E11: C++ operators and conversions (spec/Operators.tla) on synthesised types and impls."""
import random
from vf import *
from e2e import *

#         copy   clone  dflt   drop
TYPES = {"C": (1, 1, 0, 0), "T": (1, 1, 1, 0), "M": (0, 0, 0, 0), "L": (0, 1, 0, 1), "D": (0, 0, 1, 1), "I": (0, 0, 0, 1), "E": (1, 1, 0, 0), "X": (0, 1, 1, 1)}
NAMES = list(TYPES)
TRAIT = {"+": "Add", "-": "Sub", "*": "Mul", "/": "Div", "%": "Rem", "&": "BitAnd", "|": "BitOr", "^": "BitXor", "<<": "Shl", ">>": "Shr"}
METHOD = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "Shl": "shl", "Shr": "shr"}
#            Rust type       value of it in Rust         C++ argument for the value x
PLAIN = {"u32": ("u32", "{}", "uint32_t(x)"), "bool": ("bool", "{} as u32", "bool(x)"), "tup": ("(u32, u32)", "two({0}.0, {0}.1)", "std::make_tuple(uint32_t(x), uint32_t(x + 1))"),
         "opt": ("Option<u32>", "{}.unwrap()", "std::optional<uint32_t>(uint32_t(x))"), "arr": ("[u32; 2]", "two({0}[0], {0}[1])", "std::array<uint32_t, 2>{{uint32_t(x), uint32_t(x + 1)}}"),
         "str": ("&str", "{}.parse().unwrap()", "text(x)"), "slice": ("&[u32]", "two({0}[0], {0}[1])", "pair(x)"), "f64": ("f64", "{} as u32", "double(x)"), "char": ("char", "{} as u32", "rs_std::char_::from_u32(x).value()"),
         "u64": ("u64", "{} as u32", "uint64_t(x)"), "usize": ("usize", "{} as u32", "uintptr_t(x)"), "i32": ("i32", "{} as u32", "int32_t(x)"),
         "i64": ("i64", "{} as u32", "int64_t(x)"), "isize": ("isize", "{} as u32", "intptr_t(x)"), "u8": ("u8", "{} as u32", "uint8_t(x)"),
         "optu64": ("Option<u64>", "{}.unwrap() as u32", "std::optional<uint64_t>(uint64_t(x))"), "optusize": ("Option<usize>", "{}.unwrap() as u32", "std::optional<uintptr_t>(uintptr_t(x))")}
SCALAR = {"u32", "bool", "f64", "char", "u64", "usize", "i32", "i64", "isize", "u8"}
# Rust types that may be one C++ type: the second is bound when both are there
SHADOW = {("u32", "usize"), ("u64", "usize"), ("i32", "isize"), ("i64", "isize"), ("opt", "optusize"), ("optu64", "optusize")}
#        Rust type   from the value f       C++: value of the result r
OUT = {"u32": ("u32", "f", "r"), "bool": ("bool", "f % 2 == 1", "(long)r"), "tup": ("(u32, u32)", "(f, f + 1)", "two(std::get<0>(r), std::get<1>(r))"),
       "u64": ("u64", "f as u64", "r"), "usize": ("usize", "f as usize", "r"),
       "opt": ("Option<u32>", "Some(f)", "r.value()"), "arr": ("[u32; 2]", "[f, f + 1]", "two(r[0], r[1])"), "string": ("String", "f.to_string()", "num(std::string(std::string_view(r.as_str())))")}
RUST = '''
#![allow(unused)]
use std::ops::*; use std::cmp::Ordering;
fn ff(i: u32, l: u32, r: u32) -> u32 { (i * 29 + l * 7 + r * 3 + 11) % 97 }
fn two(a: u32, b: u32) -> u32 { if b == a + 1 { a } else { 9000 } }
fn leak(f: u32) -> &'static u32 { Box::leak(Box::new(f)) }
#[derive(Clone, Copy)] pub struct C { a: u8, x: u32 }
#[derive(Clone, Copy, Default)] #[repr(transparent)] pub struct T { x: u32 }
pub struct M { x: u32 }
#[derive(Clone)] pub struct L { s: Vec<u32> }
pub struct D { s: Box<u32> }
pub struct I { s: Box<u32> }
#[derive(Clone, Copy)] pub enum E { V { x: u32 }, W }
#[derive(Clone)] pub struct X { s: String }
impl Default for D { fn default() -> D { D::make(5) } }
impl Default for X { fn default() -> X { X::make(5) } }
impl C { pub fn make(x: u32) -> C { C { a: 1, x } } pub fn v(&self) -> u32 { self.x } pub(crate) fn p(&mut self) -> &mut u32 { &mut self.x } pub fn set(&mut self, v: u32) { self.x = v } }
impl T { pub fn make(x: u32) -> T { T { x } } pub fn v(&self) -> u32 { self.x } pub(crate) fn p(&mut self) -> &mut u32 { &mut self.x } pub fn set(&mut self, v: u32) { self.x = v } }
impl M { pub fn make(x: u32) -> M { M { x } } pub fn v(&self) -> u32 { self.x } pub(crate) fn p(&mut self) -> &mut u32 { &mut self.x } pub fn set(&mut self, v: u32) { self.x = v } }
impl L { pub fn make(x: u32) -> L { L { s: vec![x] } } pub fn v(&self) -> u32 { self.s[0] } pub(crate) fn p(&mut self) -> &mut u32 { &mut self.s[0] } pub fn set(&mut self, v: u32) { self.s[0] = v } }
impl D { pub fn make(x: u32) -> D { D { s: Box::new(x) } } pub fn v(&self) -> u32 { *self.s } pub(crate) fn p(&mut self) -> &mut u32 { &mut self.s } pub fn set(&mut self, v: u32) { *self.s = v } }
impl I { pub fn make(x: u32) -> I { I { s: Box::new(x) } } pub fn v(&self) -> u32 { *self.s } pub(crate) fn p(&mut self) -> &mut u32 { &mut self.s } pub fn set(&mut self, v: u32) { *self.s = v } }
impl E { pub fn make(x: u32) -> E { E::V { x } } pub fn v(&self) -> u32 { match self { E::V { x } => *x, _ => 9999 } } pub(crate) fn p(&mut self) -> &mut u32 { match self { E::V { x } => x, _ => panic!() } } pub fn set(&mut self, v: u32) { *self.p() = v } }
impl X { pub fn make(x: u32) -> X { X { s: x.to_string() } } pub fn v(&self) -> u32 { self.s.parse().unwrap() } pub fn set(&mut self, v: u32) { self.s = v.to_string() } }
'''
CXX = r'''
#include <iostream>
#include <ostream>
#include <sstream>
#include <functional>
#include <tuple>
#include "MOD.h"
namespace M = ::MOD;
static long two(long a, long b) { return b == a + 1 ? a : 9000; }
static long num(const std::string& s) { return std::stol(s); }
static std::string hold;
static uint32_t held[2];
static rs_std::StrRef text(uint32_t x) { hold = std::to_string(x); return rs_std::StrRef::FromUtf8(std::string_view(hold)).value(); }
static rs_std::SliceRef<const uint32_t> pair(uint32_t x) { held[0] = x; held[1] = x + 1; return rs_std::SliceRef<const uint32_t>(held, 2); }
template <class T> struct Two { T o[2] = {T::make(T0), T::make(T0)}; static constexpr uint32_t T0 = 0; };
OBJECTS
static std::ostream* os;
template <class R> void order(R c, bool lt, bool le, bool gt, bool ge) {
  int v = c < 0 ? -1 : c > 0 ? 1 : c == 0 ? 0 : 2;
  *os << "[" << v << "," << lt << "," << le << "," << gt << "," << ge << "]";
}
CASES
static std::function<void(int, int, uint32_t, bool)> table[] = {NUMBERS};
template <class A, class B> void offers(std::ostream& o) {
  o << requires(A a, B b) { std::move(a) + std::move(b); } << requires(A a, B b) { std::move(a) - std::move(b); } << requires(A a, B b) { std::move(a) * std::move(b); }
    << requires(A a, B b) { std::move(a) / std::move(b); } << requires(A a, B b) { std::move(a) % std::move(b); } << requires(A a, B b) { std::move(a) & std::move(b); }
    << requires(A a, B b) { std::move(a) | std::move(b); } << requires(A a, B b) { std::move(a) ^ std::move(b); } << requires(A a, B b) { std::move(a) << std::move(b); }
    << requires(A a, B b) { std::move(a) >> std::move(b); }
    << requires(A a, B b) { a += std::move(b); } << requires(A a, B b) { a -= std::move(b); } << requires(A a, B b) { a *= std::move(b); }
    << requires(A a, B b) { a /= std::move(b); } << requires(A a, B b) { a %= std::move(b); } << requires(A a, B b) { a &= std::move(b); }
    << requires(A a, B b) { a |= std::move(b); } << requires(A a, B b) { a ^= std::move(b); } << requires(A a, B b) { a <<= std::move(b); }
    << requires(A a, B b) { a >>= std::move(b); }
    << requires(A a, B b) { a[std::move(b)]; } << requires(A a, B b) { a == b; } << requires(A a, B b) { a <=> b; }
    << (std::is_same_v<A, B> ? 0 : std::is_constructible_v<A, B&&>) << (std::is_same_v<A, B> ? 0 : std::is_convertible_v<B&&, A>) << " ";
}
template <class A> void alone(std::ostream& o) {
  o << requires(A a) { -std::move(a); } << requires(A a) { !std::move(a); } << requires(std::ostream& s, A a) { s << a; } << " ";
}
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    std::ostringstream o;
    os = &o;
    std::istringstream in(l);
    int n;
    reset();
    if (l[0] == 't') { TABLE }
    else {
      int a, b, flip;
      uint32_t x;
      while (in >> n >> a >> b >> x >> flip) { table[n - 1](a - 1, b - 1, x, flip); o << ":"; show(o); o << ";"; }
    }
    std::cout << "=> " << o.str() << std::endl;
  }
}
'''


def world(rng, dense):
    """A random set of impls that C++ can tell apart."""
    P = []
    add = lambda op, t, rk="none", rt="", ref=False, out="": P.append(dict(op=op, t=t, rk=rk, rt=rt, ref=ref, out=out))
    yes = lambda p=None: rng.random() < (p or dense)
    plain = lambda ks=PLAIN: rng.sample(sorted(ks), rng.randrange(1, 6)) if yes() else []
    movable = [n for n in NAMES if n != "I"]
    outs = list(OUT) + movable
    for t in NAMES:
        for op in TRAIT:
            for o in (op, op + "="):
                for u in NAMES:
                    if yes():
                        add(o, t, "adt", u, rng.random() < .5, rng.choice(outs))
                for k in plain():
                    add(o, t, k, out=rng.choice(outs))
        for u in NAMES:
            if yes():
                ref = rng.random() < .5
                add("index", t, "adt", u, ref)
                if yes(.6) and t != "X":
                    add("index_mut", t, "adt", u, ref)
        for k in plain():
            add("index", t, k)
            if yes(.6) and t != "X":
                add("index_mut", t, k)
        for u in NAMES:
            if yes():
                add("==", t, "adt", u, True)
                if u == t and yes(.5):
                    add("cmp", t, "adt", t, True)
                elif yes(.6):
                    add("pcmp", t, "adt", u, True)
        for k in plain(SCALAR | {"str", "arr"}):
            add("==", t, k)
            if yes(.6):
                add("pcmp", t, k)
        for op in ("neg", "!"):
            if yes():
                add(op, t, out=rng.choice(outs))
        if yes():
            add("show", t)
        for u in NAMES:
            if u != t and yes():
                if rng.random() < .5:
                    add("from", t, "adt", u, rng.random() < .4)
                elif u != "I":
                    add("into", t, "to", u, out=u)
        for k in plain():
            add("from", t, k)
        for o in OUT:
            if yes(.3):
                add("into", t, "out", out=o)
    # From<A> for B makes A: Into<B>: one of the two
    have, Q = set(), []
    for m in P:
        k = (m["rt"], m["t"]) if m["op"] == "from" and m["rk"] == "adt" and not m["ref"] else (m["t"], m["rt"]) if m["op"] == "into" and m["rk"] == "to" else None
        if k and k in have:
            continue
        have.add(k)
        Q.append(m)
    # a by-reference From<&A> for B and A: Into<B> would leave C++ two ways to make a B from an A
    refs = {(m["rt"], m["t"]) for m in Q if m["op"] == "from" and m["rk"] == "adt" and m["ref"]}
    return [m for m in Q if not (m["op"] == "into" and (m["t"], m["rt"]) in refs)]


def rs_rhs(m):
    if m["rk"] == "adt":
        return ("&" if m["ref"] else "") + m["rt"], "r.v()"
    if m["rk"] in ("none", "to", "out"):
        return None, "0"
    ty, ex, _ = PLAIN[m["rk"]]
    return ty, ex.format("r")


def rs_out(o):
    return (o, f"{o}::make(f)") if o in TYPES else OUT[o][:2]


def rust_impl(n, m):
    op, t = m["op"], m["t"]
    ty, ex = rs_rhs(m)
    f = f"let f = ff({n}, self.v(), {ex});"
    if op in TRAIT:
        o, e = rs_out(m["out"])
        return f"impl {TRAIT[op]}<{ty}> for {t} {{ type Output = {o}; fn {METHOD[TRAIT[op]]}(self, r: {ty}) -> {o} {{ {f} {e} }} }}"
    if op[:-1] in TRAIT and op != "==":
        tr = TRAIT[op[:-1]]
        return f"impl {tr}Assign<{ty}> for {t} {{ fn {METHOD[tr]}_assign(&mut self, r: {ty}) {{ {f} self.set(f) }} }}"
    if op == "index":
        return f"impl Index<{ty}> for {t} {{ type Output = u32; fn index(&self, r: {ty}) -> &u32 {{ {f} leak(f) }} }}"
    if op == "index_mut":
        return f"impl IndexMut<{ty}> for {t} {{ fn index_mut(&mut self, r: {ty}) -> &mut u32 {{ {f} self.set(f); self.p() }} }}"
    bare = (m["rt"] if m["rk"] == "adt" else ty)
    if op in ("==", "pcmp") and m["rk"] in SCALAR:
        ex = ex.replace("r", "(*r)")
    f = f"let f = ff({n}, self.v(), {ex});"
    if op == "==":
        return f"impl PartialEq<{bare}> for {t} {{ fn eq(&self, r: &{bare}) -> bool {{ {f} f % 2 == 1 }} }}"
    o3 = "match f % 3 { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater }"
    if op == "cmp":
        return (f"impl Eq for {t} {{}} impl Ord for {t} {{ fn cmp(&self, r: &{t}) -> Ordering {{ {f} {o3} }} }} "
                f"impl PartialOrd for {t} {{ fn partial_cmp(&self, r: &{t}) -> Option<Ordering> {{ Some(self.cmp(r)) }} }}")
    if op == "pcmp":
        return f"impl PartialOrd<{bare}> for {t} {{ fn partial_cmp(&self, r: &{bare}) -> Option<Ordering> {{ {f} match f % 4 {{ 0 => Some(Ordering::Less), 1 => Some(Ordering::Equal), 2 => Some(Ordering::Greater), _ => None }} }} }}"
    if op in ("neg", "!"):
        tr, me = {"neg": ("Neg", "neg"), "!": ("Not", "not")}[op]
        o, e = rs_out(m["out"])
        return f"impl {tr} for {t} {{ type Output = {o}; fn {me}(self) -> {o} {{ let f = ff({n}, self.v(), 0); {e} }} }}"
    if op == "into":
        o, e = rs_out(m["out"])
        if m["rk"] == "to" and n % 2:
            return f"impl Into<{o}> for {t} {{ fn into(self) -> {o} {{ let f = ff({n}, self.v(), 0); {e} }} }}"
        return f"impl From<{t}> for {o} {{ fn from(s: {t}) -> {o} {{ let f = ff({n}, s.v(), 0); {e} }} }}"
    if op == "from":
        return f"impl From<{ty}> for {t} {{ fn from(r: {ty}) -> {t} {{ let f = ff({n}, 0, {ex}); {t}::make(f) }} }}"
    return f"impl std::fmt::Display for {t} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ write!(f, \"{{}}\", self.v()) }} }}"


def movable(t):
    c, cl, d, dr = TYPES[t]
    return bool(c or cl or d or not dr)


def shadowed(m, W):
    # conversions of a type into Rust's several names for one C++ type stand in each other's way, too
    k = "out" if m["op"] == "into" else "rk"
    return any((m[k], o[k]) in SHADOW for o in W if (o["op"], o["t"]) == (m["op"], m["t"]))


def bindable(m, W):
    if shadowed(m, W):
        return False
    if (m["op"] in TRAIT or m["op"] in ("neg", "!", "into")) and not movable(m["t"]):
        return False
    return not (m["rk"] == "adt" and not m["ref"] and not movable(m["rt"]))


def cxx_case(n, m):
    op, t = m["op"], m["t"]
    copy = TYPES[t][0]
    a = f"{t}_[a]"
    mv = lambda e, ty: e if TYPES[ty][0] else f"std::move({e})"
    if m["rk"] == "adt":
        b = f"{m['rt']}_[b]"
        # the result of indexing may borrow from the index, which C++ then passes as a pointer
        b = ("&" + b if op.startswith("index") else b) if m["ref"] else mv(b, m["rt"])
    elif m["rk"] in PLAIN:
        b = PLAIN[m["rk"]][2]
    else:
        b = ""
    val = "r.v()" if m["out"] in TYPES else OUT[m["out"]][2] if m["out"] else ""
    ty = "M::" + m["out"] if m["out"] in TYPES else {"u32": "uint32_t", "u64": "uint64_t", "usize": "uintptr_t", "bool": "bool", "tup": "std::tuple<uint32_t, uint32_t>", "opt": "std::optional<uint32_t>",
                                                    "arr": "std::array<uint32_t, 2>", "string": "rs::alloc::string::String", "": ""}[m["out"]]
    same = f"static_assert(std::is_same_v<decltype(r), {ty}>);"
    if op in TRAIT:
        s = f"auto r = {mv(a, t)} {op} {b}; {same} *os << {val};"
    elif op[:-1] in TRAIT and op != "==":
        s = f"{a} {op} {b}; *os << 0;"
    elif op == "index":
        s = f"auto& r = std::as_const({a})[{b}]; static_assert(std::is_same_v<decltype(r), const uint32_t&>); *os << r;"
    elif op == "index_mut":
        s = f"auto& r = {a}[{b}]; static_assert(std::is_same_v<decltype(r), uint32_t&>); *os << r; r = (r + 1) % 97;"
    elif op == "==":
        s = f"auto&& q = {b}; bool r = flip ? q == {a} : {a} == q; bool s = flip ? q != {a} : {a} != q; if (r == s) *os << \"both \"; *os << r;"
    elif op in ("cmp", "pcmp"):
        k = {"cmp": "strong", "pcmp": "partial"}[op]
        s = (f"auto&& q = {b}; auto r = {a} <=> q; static_assert(std::is_same_v<decltype(r), std::{k}_ordering>); "
             f"if (flip) order(q <=> {a}, q < {a}, q <= {a}, q > {a}, q >= {a}); else order(r, {a} < q, {a} <= q, {a} > q, {a} >= q);")
    elif op in ("neg", "!"):
        s = f"auto r = {'-' if op == 'neg' else '!'}{mv(a, t)}; {same} *os << {val};"
    elif op == "into":
        # asked by name where C++ has other ways from the one type to the other
        e = f"({mv(a, t)}).operator Q()" if m["out"] == "opt" else f"static_cast<Q>({mv(a, t)})"
        s = f"using Q = {ty}; auto r = {e}; *os << {val};"
    elif op == "from":
        s = f"auto r = M::{t}({b}); *os << r.v();"
    else:
        s = f"std::ostringstream q; q << {a}; *os << q.str();"
    return f"static void f{n}(int a, int b, uint32_t x, bool flip) {{ {s} }}"


def sources(W):
    rs = RUST + "\n".join(rust_impl(n, m) for n, m in enumerate(W, 1))
    if True:
        rs = rs.replace("impl X {", "impl X { pub(crate) fn p(&mut self) -> &mut u32 { panic!() }")
    obj = "".join(f"static M::{t}* {t}_;\n" for t in NAMES)
    # two objects of each type, made anew for every history (immovable types too)
    obj += "".join(f"struct P{t} {{ M::{t} o[2] = {{M::{t}::make({(i * 11) % 97}), M::{t}::make({(i * 13 + 40) % 97})}}; }};\nstatic P{t}* p{t};\n" for i, t in enumerate(NAMES, 1))
    obj += "static void reset() {" + "".join(f" delete p{t}; p{t} = new P{t}(); {t}_ = p{t}->o;" for t in NAMES) + " }\n"
    obj += "static void show(std::ostream& o) {" + "".join(f' o << {t}_[0].v() << "," << {t}_[1].v() << " ";' for t in NAMES) + " }\n"
    use = [(n, m) for n, m in enumerate(W, 1) if bindable(m, W)]
    nums = ["nullptr"] * len(W)
    for n, _ in use:
        nums[n - 1] = f"f{n}"
    tab = "".join(f"offers<M::{a}, M::{b}>(o);" for a in NAMES for b in NAMES) + "".join(f"alone<M::{a}>(o);" for a in NAMES)
    cc = CXX.replace("OBJECTS", obj).replace("CASES", "\n".join(cxx_case(n, m) for n, m in use)).replace("NUMBERS", ", ".join(nums)).replace("TABLE", tab)
    cc = re.sub(r"template <class T> struct Two.*\n", "", cc)
    return rs, cc


def consts(W, **kw):
    ts = [dict(copy=bool(a), clone=bool(b), dflt=bool(c), drop=bool(d)) for a, b, c, d in TYPES.values()]
    ix = lambda n: NAMES.index(n) + 1 if n in NAMES else 0
    kw.setdefault('Sample', 0)
    return dict(Types=ts, Shadow=SHADOW, Impls=[dict(op=m["op"], t=ix(m["t"]), rk=m["rk"], rt=ix(m["rt"]), ref=m["ref"], out=m["out"]) for m in W], **kw)


def expected(h):
    o = ""
    for e in h:
        r = e["res"]
        r = f"[{r[0]}," + ",".join(str(int(x)) for x in r[1:]) + "]" if isinstance(r, list) else r
        o += f"{r}:" + "".join(f"{a},{b} " for a, b in e["val"]) + ";"
    return o


ORDER = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "index", "==", "<=>"]


def one(c, k):
    rng = random.Random(c.seed * 1000 + k)
    W = world(rng, [.15, .3, .1, .2][k % 4])
    rs, cc = sources(W)
    cr = Crate(f"ops{k}", rs, rustc_args=support_externs())
    out = []
    try:
        with ThreadPoolExecutor(4) as ex:
            fb = ex.submit(cr.build, cc.replace("MOD", cr.name), ("-O0",), (), SUPPORT_SRC)
            inv = dict(invariants=["InRange"], properties=["Local"], view="View")
            t0 = ex.submit(tlc, "Operators", consts(W, Inputs={0}, MaxSteps=1, Table=True), emit="Emit", **inv)
            t1 = ex.submit(tlc, "Operators", consts(W, Inputs={0, 1}, MaxSteps=1, Table=False), emit="Emit", **inv)
            t2 = ex.submit(tlc, "Operators", consts(W, Inputs={0, 1}, MaxSteps=25, Table=False, Sample=1), emit="EmitLast", simulate=c.pick(10, 100), depth=30, seed=c.seed + k, workers=4, **inv)
            res = [t.result() for t in (t0, t1, t2)]
            try:
                drv = fb.result()
            except GeneratedCodeError as e:
                return W, res, [(f"the operators of a crate cannot be used: {e}"[:1500], {"error": str(e), "impls": W})]
        tab = res[0].histories[0][0]
        got = run_sharded(drv, ["t"], n=1)[0].split()
        it = iter(got)
        for i, a in enumerate(NAMES):
            for j, b in enumerate(NAMES):
                row = next(it)
                for o, x in zip(ORDER, row):
                    if (x == "1") != tab["two"][o][i][j]:
                        out.append((f"C++ {'offers' if x == '1' else 'does not offer'} {a} {o} {b}, but {'no' if x == '1' else 'an'} impl stands behind it", {"impls": [m for m in W if {m['t'], m['rt']} <= {a, b}]}))
                if (row[-2] == "1") != tab["conv"][i][j]:
                    out.append((f"conversion of {b} to {a}: offered {row[-2]}, expected {tab['conv'][i][j]}", {"impls": [m for m in W if m["op"] in ("from", "into")]}))
                if row[-1] == "1":
                    out.append((f"{b} converts to {a} implicitly", {"impls": [m for m in W if m["op"] in ("from", "into")]}))
        for i, a in enumerate(NAMES):
            row = next(it)
            for o, x in zip(["neg", "!", "show"], row):
                if (x == "1") != tab["one"][o][i]:
                    out.append((f"{o} of {a}: offered {x}, expected {tab['one'][o][i]}", {"type": a, "op": o}))
        hs = res[1].histories + res[2].histories
        lines = [" ".join(f"{e['i']} {e['a']} {e['b']} {e['x']} {int(e['how'] == 'flip')}" for e in h) for h in hs]
        for h, l, o in zip(hs, lines, run_sharded(drv, lines, n=2)):
            want = expected(h)
            if o != want:
                ws, os_ = want.split(";"), o.split(";")
                i = next((i for i, (a, b) in enumerate(zip(ws, os_)) if a != b), 0)
                m = W[h[i]["i"] - 1]
                out.append((f"{'&' if m['ref'] else ''}{m['t']} {m['op']} {m['rt'] or m['rk']}: expected {ws[i]}, observed {os_[i]}", {"impl": m, "step": h[i], "history": l, "observed": o, "expected": want}))
        return W, res, out, len(hs)
    finally:
        cr.clean()


def run(c):
    generator(); stdlib()
    n = c.pick(4, 24)
    impls = traces = 0
    with ThreadPoolExecutor(4) as ex:
        for k, r in enumerate(ex.map(lambda k: one(c, k), range(n))):
            W, res, bad = r[:3]
            for x, what in zip(res, ("what is offered", "every impl on every pair", "random sequences")):
                c.add_tlc(x, f"world {k}: {what}")
            for what, d in bad[:20]:
                c.violation(what + f" [world {k}]", d)
            impls += len(W)
            c.traces += r[3] if len(r) > 3 else 0
            c.sample(W[len(W) // 2])
    c.extra.update({"worlds": n, "impls": impls, "existence_questions": n * len(NAMES) ** 2 * 25})
