"""E06: Option, Result and bound enums from both sides (spec/Variant.tla)."""
import random
from vf import *
from e2e import *

# atoms: Rust type, values 0..2 (Rust), how many differ, owns
ATOMS = {
    "u8": ("u8", ["7", "200", "255"], 3, 0), "bool": ("bool", ["false", "true", "true"], 2, 0), "char": ("char", ["'\\0'", "'\\u{10FFFF}'", "'\\u{D7FF}'"], 3, 0),
    "u32": ("u32", ["0", "0xFFFF_FFFF", "0x8000_0001"], 3, 0), "u64": ("u64", ["1", "!0", "1 << 63"], 3, 0), "i16": ("i16", ["-1", "i16::MIN", "5"], 3, 0),
    "nz": ("NonZeroU16", ["NonZeroU16::new(1).unwrap()", "NonZeroU16::MAX", "NonZeroU16::new(256).unwrap()"], 3, 0),
    "e3": ("E3", ["E3::A", "E3::B", "E3::C"], 3, 0), "en": ("En", ["En::A", "En::B", "En::C"], 3, 0), "e255": ("E255", ["E255::A", "E255::B", "E255::C"], 3, 0),
    "ref": ("&'static u32", ["&REFS[0]", "&REFS[1]", "&REFS[2]"], 3, 0), "ob": ("Option<bool>", ["None", "Some(false)", "Some(true)"], 3, 0),
    "arr": ("[u8; 5]", ["[1; 5]", "[255; 5]", "[0, 1, 2, 3, 4]"], 3, 0), "ord": ("std::cmp::Ordering", ["std::cmp::Ordering::Less", "std::cmp::Ordering::Equal", "std::cmp::Ordering::Greater"], 3, 0),
    "f64": ("f64", ["0.0", "-1.5", "f64::MAX"], 3, 0), "fn": ("extern \"C\" fn()", ["FNS[0]", "FNS[1]", "FNS[2]"], 3, 0),
    "box": ("Box<u32>", ["Box::new(5)", "Box::new(6)", "Box::new(0)"], 3, 1), "string": ("String", ["String::new()", "\"a\".to_string()", "\"zz\".repeat(40)"], 3, 1),
    "vec": ("Vec<u16>", ["vec![]", "vec![1]", "vec![2; 9]"], 3, 1), "rc": ("std::rc::Rc<u8>", ["Rc::new(1)", "Rc::new(2)", "Rc::new(3)"], 3, 1),
}
ATOMS = {k: v for k, v in ATOMS.items()}
ATOMS["rc"] = ("std::rc::Rc<u8>", [f"std::rc::Rc::new({i})" for i in (1, 2, 3)], 3, 1)
#       Rust, C++ type, Rust values, C++ values
PRIMS = {
    "u8": ("u8", "uint8_t", ["0", "255", "1"], ["uint8_t(0)", "uint8_t(255)", "uint8_t(1)"]), "i64": ("i64", "int64_t", ["i64::MIN", "-1", "0"], ["INT64_MIN", "int64_t(-1)", "int64_t(0)"]),
    "u16": ("u16", "uint16_t", ["0", "1", "65535"], ["uint16_t(0)", "uint16_t(1)", "uint16_t(65535)"]), "i8": ("i8", "int8_t", ["-128", "-1", "0"], ["int8_t(-128)", "int8_t(-1)", "int8_t(0)"]),
    "f32": ("f32", "float", ["0.0", "-1.5", "f32::MAX"], ["0.0f", "-1.5f", "FLT_MAX"]), "bool": ("bool", "bool", ["false", "true"], ["false", "true"]),
    "char": ("char", "rs_std::char_", ["'\\0'", "'\\u{10FFFF}'", "'\\u{D7FF}'"], ["rs_std::char_::from_u32(0).value()", "rs_std::char_::from_u32(0x10FFFF).value()", "rs_std::char_::from_u32(0xD7FF).value()"]),
    "ptr": ("*const u32", "const uint32_t*", ["std::ptr::null()", "8 as *const u32", "!0 as *const u32"], ["nullptr", "(const uint32_t*)8", "(const uint32_t*)~0ul"]),
}
HEAD = '''
#![allow(unused, improper_ctypes_definitions)]
use std::num::NonZeroU16; use std::sync::atomic::*;
static REFS: [u32; 3] = [1, 2, 3];
static FNS: [extern "C" fn(); 3] = [fna, fnb, fnc];
#[inline(never)] extern "C" fn fna() { std::hint::black_box(0); } #[inline(never)] extern "C" fn fnb() { std::hint::black_box(1); } #[inline(never)] extern "C" fn fnc() { std::hint::black_box(2); }
#[derive(Clone, Copy, PartialEq)] enum E3 { A, B, C }
#[derive(Clone, Copy, PartialEq)] #[repr(i8)] enum En { A = -128, B = 127, C = -1 }
#[derive(Clone, Copy, PartialEq)] #[repr(u8)] enum E255 { A = 0, B = 254, C = 100, D = 253 }
static LIVE: [AtomicI32; 3] = [AtomicI32::new(0), AtomicI32::new(0), AtomicI32::new(0)];
static BAD: AtomicI32 = AtomicI32::new(0);
pub fn live(x: i32) -> i32 { LIVE[x as usize].load(Ordering::SeqCst) + 1000 * BAD.load(Ordering::SeqCst) }
fn born(x: i32) { LIVE[x as usize].fetch_add(1, Ordering::SeqCst); }
fn gone(x: i32) { if x < 0 || x > 2 { BAD.fetch_add(1, Ordering::SeqCst); } else { LIVE[x as usize].fetch_sub(1, Ordering::SeqCst); } }
'''
CLASSES = ["prim", "copy", "bits", "dflt", "both", "clone", "fixed"]


class Payload:
    """A payload type: a struct of random fields, or a primitive type."""

    def __init__(self, rng, n, cls, atoms=None):
        self.cls, self.n = cls, n
        if cls == "none":
            self.nv, self.rs, self.cc = 1, "()", "rs_std::unit_t"
        elif cls == "prim":
            self.key = atoms or rng.choice(sorted(PRIMS))
            self.rs, self.cc, self.vals, self.cvals = PRIMS[self.key]
            self.nv = len(self.vals)
        else:
            self.rs, self.cc = f"P{n}", f"M::P{n}"
            pool = [a for a in ATOMS if not ATOMS[a][3] or cls not in ("copy", "bits")]
            self.atoms = atoms or [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3]))]
            self.nv = max(ATOMS[a][2] for a in self.atoms)

    def decl(self):
        if self.cls in ("prim", "none"):
            return ""
        c, n = self.cls, self.n
        o = "#[derive(Clone, Copy)] " if c == "copy" else ""
        o += f"pub struct P{n} {{ " + ", ".join(f"f{i}: {ATOMS[a][0]}" for i, a in enumerate(self.atoms)) + " }\n"
        raw = lambda x: f"P{n} {{ " + ", ".join(f"f{i}: {ATOMS[a][1][x]}" for i, a in enumerate(self.atoms)) + " }"
        own = c not in ("copy", "bits")
        eq = lambda i, a, x: (f"s.f{i} as usize == {ATOMS[a][1][x]} as usize" if a == "fn" else f"s.f{i} == {ATOMS[a][1][x]}" if a != "ref" else f"std::ptr::eq(s.f{i}, {ATOMS[a][1][x]})")
        o += f"impl P{n} {{ pub fn make(x: i32) -> P{n} {{ {f'born(x);' if own else ''} match x {{ " + " ".join(f"{x} => {raw(x)}," for x in range(self.nv)) + " _ => panic!() } }\n"
        o += f"  pub fn idx(s: &P{n}) -> i32 {{ " + " ".join(f"if {' && '.join(eq(i, a, x) for i, a in enumerate(self.atoms))} {{ return {x}; }}" for x in range(self.nv)) + " 5 } }\n"
        if c in ("dflt", "both"):
            o += f"impl Default for P{n} {{ fn default() -> P{n} {{ P{n}::make(0) }} }}\n"
        if c in ("both", "clone"):
            o += f"impl Clone for P{n} {{ fn clone(&self) -> P{n} {{ P{n}::make(P{n}::idx(self)) }} }}\n"
        if own:
            o += f"impl Drop for P{n} {{ fn drop(&mut self) {{ gone(P{n}::idx(self)) }} }}\n"
        return o

    def mk(self, x):
        if self.cls == "none":
            return "()"
        return f"match {x} {{ " + " ".join(f"{i} => {v}," for i, v in enumerate(self.vals)) + " _ => panic!() }" if self.cls == "prim" else f"{self.rs}::make({x})"

    def idx(self, e):
        """the value of the reference e"""
        if self.cls == "none":
            return "0"
        return "(" + " else ".join(f"if *{e} == {v} {{ {i} }}" for i, v in enumerate(self.vals)) + " else { 5 })" if self.cls == "prim" else f"{self.rs}::idx({e})"

    def cxx(self, name):
        c = "const " if True else ""
        if self.cls == "none":
            return f"struct {name} {{ using T = rs_std::unit_t; static T make(int) {{ return T(); }} static int idx(const T&) {{ return 0; }} }};"
        if self.cls == "prim":
            return (f"struct {name} {{ using T = {self.cc}; static T make(int x) {{ " + " ".join(f"if (x == {i}) return {v};" for i, v in enumerate(self.cvals)) + " abort(); } "
                    f"static int idx(const T& v) {{ " + " ".join(f"if (v == {x}) return {i};" for i, x in enumerate(self.cvals)) + " return 5; } };")
        return f"struct {name} {{ using T = {self.cc}; static T make(int x) {{ return T::make(x); }} static int idx(const T& v) {{ return T::idx(v); }} }};"


class Kind:
    def __init__(self, rng, n, form, ps, rep="", extra=None, dflt=0, clone=False, copy=False, discr=None):
        self.n, self.form, self.ps, self.rep, self.extra = n, form, ps, rep, extra or [0] * len(ps)
        self.dflt, self.clone, self.copy, self.discr = dflt, clone, copy, discr
        if form == "option":
            self.rs, self.cc, self.dflt = f"Option<{ps[1].rs}>", f"rs_std::Option<{ps[1].cc}>", 1
        elif form == "result":
            self.rs, self.cc = f"Result<{ps[0].rs}, {ps[1].rs}>", f"rs_std::Result<{ps[0].cc}, {ps[1].cc}>"
        else:
            self.rs, self.cc = f"H{n}", f"M::H{n}"

    def abstract(self):
        return dict(form=self.form, vars=[dict(cls=p.cls, nv=p.nv, make=self.makes(v)) for v, p in enumerate(self.ps, 1)], dflt=self.dflt, clone=self.clone, copy=self.copy)

    def makes(self, v):
        """constructors are offered for unit and tuple variants of fields that are Copy or Default"""
        return self.enum() and self.ps[v - 1].cls in ("none", "prim", "copy", "dflt", "both") and self.extra[v - 1] != 1

    def movable(self):
        cs = {p.cls for p in self.ps}
        owns = cs & {"dflt", "both", "clone", "fixed"}
        clones = self.clone or self.copy if self.enum() else not cs & {"bits", "dflt", "fixed"}
        return bool(not owns or self.dflt or clones)

    def enum(self):
        return self.form in ("enum", "reprc")

    def make(self, v, x):
        p = self.ps[v - 1]
        if self.form == "option":
            return "None" if v == 1 else f"Some({p.mk(x)})"
        if self.form == "result":
            return f"{['Ok', 'Err'][v - 1]}({p.mk(x)})"
        if p.cls == "none":
            return f"H{self.n}::V{v}"
        return [f"H{self.n}::V{v}({p.mk(x)})", f"H{self.n}::V{v} {{ a: {p.mk(x)}, b: {x} as u16 * 7 + 1 }}", f"H{self.n}::V{v}({p.mk(x)}, {x} as u16 * 7 + 1)"][self.extra[v - 1]]

    def pat(self, v, name):
        p = self.ps[v - 1]
        if self.form == "option":
            return "None" if v == 1 else f"Some({name})"
        if self.form == "result":
            return f"{['Ok', 'Err'][v - 1]}({name})"
        if p.cls == "none":
            return f"H{self.n}::V{v}"
        return [f"H{self.n}::V{v}({name})", f"H{self.n}::V{v} {{ a: {name}, b }}", f"H{self.n}::V{v}({name}, b)"][self.extra[v - 1]]

    def rust(self):
        n, h, o = self.n, self.rs, ""
        vs = range(1, len(self.ps) + 1)
        if self.enum():
            der = ["Clone"] * (self.clone or self.copy) + ["Copy"] * self.copy
            o += (f"#[derive({', '.join(der)})] " if der else "") + (f"#[repr({self.rep})] " if self.rep else "") + f"pub enum H{n} {{ "
            for v in vs:
                p = self.ps[v - 1]
                o += f"V{v}" + ("" if p.cls == "none" else [f"({p.rs})", f" {{ a: {p.rs}, b: u16 }}", f"({p.rs}, u16)"][self.extra[v - 1]]) + (f" = {self.discr[v - 1]}" if self.discr else "") + ", "
            o += "}\n"
            if self.dflt:
                o += f"impl Default for H{n} {{ fn default() -> Self {{ {self.make(self.dflt, 0)} }} }}\n"
        two = lambda v: self.enum() and self.extra[v - 1] and self.ps[v - 1].cls != "none"
        bad = lambda v, x: f" + (if *b == ({x}) as u16 * 7 + 1 {{ 0 }} else {{ 500 }})" if two(v) else ""
        o += f"fn mk{n}(v: i32, x: i32) -> {h} {{ match v {{ " + " ".join(f"{v} => {self.make(v, 'x')}," for v in vs) + " _ => panic!() } }\n"
        o += f"pub fn see{n}(h: &{h}) -> i32 {{ match h {{ " + " ".join(f"{self.pat(v, 'p')} => {{ let i = {self.ps[v - 1].idx('p')}; {v * 10} + i{bad(v, 'i')} }}" for v in vs) + " } }\n"
        o += f"pub fn at{n}(h: &{h}) -> usize {{ match h {{ " + " ".join(f"{self.pat(v, 'p')} => " + ("0," if self.ps[v - 1].cls == "none" else f"p as *const {self.ps[v - 1].rs} as usize,") for v in vs) + " } }\n"
        o += f"pub fn set{n}(h: &mut {h}, v: i32, x: i32) {{ *h = mk{n}(v, x) }}\n"
        o += (f"pub fn poke{n}(h: &mut {h}, x: i32) {{ match h {{ " +
              " ".join(f"{self.pat(v, 'p')} => {{ " + ("" if self.ps[v - 1].cls == "none" else f"*p = {self.ps[v - 1].mk('x')};" + ("*b = x as u16 * 7 + 1;" if two(v) else "")) + " }" for v in vs) + " } }\n")
        o += f"pub fn swap{n}(a: &mut {h}, b: &mut {h}) {{ std::mem::swap(a, b) }}\n"
        o += f"pub fn repl{n}(h: &mut {h}, v: i32, x: i32) -> {h} {{ std::mem::replace(h, mk{n}(v, x)) }}\n"
        o += f"pub fn give{n}(v: i32, x: i32) -> {h} {{ mk{n}(v, x) }}\npub fn eat{n}(h: {h}) -> i32 {{ see{n}(&h) }}\npub fn id{n}(h: {h}) -> {h} {{ h }}\n"
        return o

    def cxx(self):
        n = self.n
        o = f"struct K{n} {{ using H = {self.cc}; static constexpr const char* form = \"{self.form}\"; static constexpr bool opt = {int(self.form == 'option')}, res = {int(self.form == 'result')}, en = {int(self.enum())}, reprc = {int(self.form == 'reprc')};\n"
        for v, p in enumerate(self.ps, 1):
            o += "  " + p.cxx(f"V{v}") + "\n"
        if self.enum():
            o += "  using T1 = int;\n"
        for f in ("see", "at", "set", "poke", "swap", "repl", "give"):
            o += f"  static decltype(auto) {f}(auto&&... a) {{ return M::{f}{n}(std::forward<decltype(a)>(a)...); }}\n"
        for f in ("eat", "id") if self.movable() else ():
            o += f"  template <class A> static decltype(auto) {f}(A&& a) requires requires {{ M::{f}{n}(std::forward<A>(a)); }} {{ return M::{f}{n}(std::forward<A>(a)); }}\n"
        if self.enum():
            o += "  static void make(H* p, int v, int x) {\n"
            for v, p in enumerate(self.ps, 1):
                arg = "" if p.cls == "none" else f"V{v}::make(x)" + (", uint16_t(x * 7 + 1)" if self.extra[v - 1] else "")
                if self.makes(v):
                    o += f"    if (v == {v}) new (p) H(H::MakeV{v}({arg}));\n"
            o += "  }\n"
        if self.form == "reprc":
            fld = lambda v, e: [(f"{e}.V{v}.__field0", None), (f"{e}.V{v}.a", f"{e}.V{v}.b"), (f"{e}.V{v}.__field0", f"{e}.V{v}.__field1")][self.extra[v - 1]]
            o += "  static int look(const H& h) { switch (h.tag) {\n"
            for v, p in enumerate(self.ps, 1):
                a, b = fld(v, "h")
                o += f"    case H::Tag::V{v}: " + (f"return {v * 10};" if p.cls == "none" else f"{{ int i = V{v}::idx({a}); return {v * 10} + i" + (f" + ({b} == i * 7 + 1 ? 0 : 500)" if b else "") + "; }") + "\n"
            o += "    default: return -7; } }\n  static const void* where(const H& h) { switch (h.tag) {\n"
            for v, p in enumerate(self.ps, 1):
                a, b = fld(v, "h")
                o += f"    case H::Tag::V{v}: return {'nullptr' if p.cls == 'none' else '&' + a};\n"
            o += "    default: return nullptr; } }\n  static void write(H& h, int v, int x) {\n"
            if not any(p.cls in ("dflt", "both", "clone", "fixed") for p in self.ps):
                for v, p in enumerate(self.ps, 1):
                    a, b = fld(v, "h")
                    o += f"    if (v == {v}) {{ h.tag = H::Tag::V{v}; " + ("" if p.cls == "none" else f"auto t = V{v}::make(x); memcpy((void*)&{a}, (void*)&t, sizeof t); " + (f"{b} = x * 7 + 1;" if b else "")) + "}\n"
            o += "  }\n"
        return o + "};\n"


CXX = r'''
#include <cfloat>
#include <cstring>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "MOD.h"
namespace M = ::MOD;
KINDS
template <class K> struct Run {
  using H = typename K::H;
  alignas(64) unsigned char mem[2][sizeof(H) + 64];
  bool up[2] = {false, false};
  int fill = 0, mark[2];
  H& o(int i) { return *(H*)mem[i - 1]; }
  void* fresh(int i) { memset(mem[i - 1], mark[i - 1] = (const int[]){0, 255, 0xA5, 1, 2}[fill++ % 5], sizeof mem[0]); up[i - 1] = true; return mem[i - 1]; }
  void kill(int i) { if (up[i - 1]) o(i).~H(); up[i - 1] = false; }
  static int code(const auto& t) { if constexpr (K::opt && !std::is_same_v<std::remove_cvref_t<decltype(t)>, H>) return t.has_value() ? 20 + K::V2::idx(*t) : 10; else return K::see(t); }
  // what C++ sees
  std::pair<int, const void*> look(const H& h) {
    if constexpr (K::opt) return h.has_value() ? std::pair<int, const void*>(20 + K::V2::idx(*h), h.operator->()) : std::pair<int, const void*>(10, nullptr);
    else if constexpr (K::res) {
      if ((bool)h != h.has_value()) return {-8, nullptr};
      if (h.has_value()) { if constexpr (std::is_same_v<typename K::V1::T, rs_std::unit_t>) return {10, nullptr}; else return {10 + K::V1::idx(h.value()), &*h}; }
      else { if constexpr (std::is_same_v<typename K::V2::T, rs_std::unit_t>) return {20, nullptr}; else return {20 + K::V2::idx(h.error()), &h.err()}; }
    } else if constexpr (K::reprc) return {K::look(h), K::where(h)};
    else return {K::see(h), (const void*)K::at(h)};
  }
  template <class V> int star(auto& ref, int x) {
    using T = typename V::T;
    if constexpr (std::is_move_assignable_v<T>) { T t = V::make(x); ref = std::move(t); return V::idx(t); } else return -99;
  }
  template <class V> int out(auto& ref) {
    using T = typename V::T;
    if constexpr (std::is_move_constructible_v<T>) { T t(std::move(ref)); return V::idx(t); } else return -99;
  }
  template <class V> int res(int i, int v, int x, int how) {
    using T = typename V::T;
    constexpr bool err = std::is_same_v<V, typename K::V2>;
    if constexpr (std::is_move_constructible_v<T>) {
      T t = V::make(x);
      if (how == 0) { if constexpr (!err) new (fresh(i)) H(std::move(t)); else new (fresh(i)) H(rs_std::unexpected<T>(std::move(t))); }
      if (how == 1) { if constexpr (!err) new (fresh(i)) H(std::in_place, std::move(t)); else new (fresh(i)) H(rs_std::unexpect, std::move(t)); }
      if constexpr (!err) { if (how == 2) o(i) = std::move(t); } else { if (how == 2) o(i) = rs_std::unexpected<T>(std::move(t)); }
      return V::idx(t);
    } else return -99;
  }
  bool dies(auto f) {
    fflush(stdout);
    int p[2];
    pipe(p);
    pid_t c = fork();
    if (!c) { dup2(p[1], 2); f(); _exit(0); }
    close(p[1]);
    std::string s; char b[512]; int n;
    while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n);
    close(p[0]);
    int st; waitpid(c, &st, 0);
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && s.find("Bad") != std::string::npos;
  }
  int step(const std::string& op, int i, int j, int v, int x) {
    if (op == "give") { auto t = [&]() -> H { return H(K::give(v, x)); }; new (fresh(i)) H(t()); return 0; }
    if (op == "setr") { K::set(o(i), v, x); return 0; }
    if (op == "poker") { K::poke(o(i), x); return 0; }
    if (op == "swapr") { K::swap(o(i), o(j)); return 0; }
    if (op == "repl") { auto&& t = K::repl(o(i), v, x); return code(t); }
    if (op == "copy") { if constexpr (std::is_copy_constructible_v<H>) { new (fresh(i)) H(std::as_const(o(j))); return 0; } }
    if (op == "copya") { if constexpr (std::is_copy_assignable_v<H>) { o(i) = std::as_const(o(j)); return 0; } }
    if (op == "move") { if constexpr (std::is_move_constructible_v<H>) { new (fresh(i)) H(std::move(o(j))); return 0; } }
    if (op == "movea") { if constexpr (std::is_move_assignable_v<H>) { o(i) = std::move(o(j)); return 0; } }
    if (op == "dflt") { if constexpr (std::is_default_constructible_v<H>) { new (fresh(i)) H(); return 0; } }
    if (op == "kill") { kill(i); return 0; }
    if constexpr (K::opt) {
      using V = typename K::V2;
      using T = typename V::T;
      if (op == "eat") { if constexpr (requires { K::eat(std::optional<T>(std::move(o(i)))); }) return K::eat(std::optional<T>(std::move(o(i)))); }
      if (op == "id") { if constexpr (requires { K::id(std::optional<T>(std::move(o(i)))); }) { std::optional<T> t = K::id(std::optional<T>(std::move(o(i)))); return code(t); } }
      if (op == "nullopt") { new (fresh(i)) H(std::nullopt); return 0; }
      if (op == "anullopt") { o(i) = std::nullopt; return 0; }
      if (op == "opt" && v == 1) {
        // an lvalue, where that is accepted, means the same
        const std::optional<T> t;
        if constexpr (std::is_constructible_v<H, const std::optional<T>&>) { H h(t); if (h.has_value()) return -98; }
        if constexpr (std::is_assignable_v<H&, const std::optional<T>&>) { H h(std::nullopt); h = t; if (h.has_value()) return -97; }
      }
      if (op == "opt" || op == "aopt") {
        std::optional<T> t = K::give(v, x);
        if (op == "opt") new (fresh(i)) H(std::move(t)); else o(i) = std::move(t);
        return code(t);
      }
      if (op == "toopt") { std::optional<T> t = std::move(o(i)); return code(t); }
      if constexpr (std::is_move_constructible_v<T>) {
        if (op == "value") { T t = V::make(x); new (fresh(i)) H(std::move(t)); return V::idx(t); }
        if (op == "inplace") { T t = V::make(x); new (fresh(i)) H(std::in_place, std::move(t)); return V::idx(t); }
        if (op == "avalue") { T t = V::make(x); o(i) = std::move(t); return V::idx(t); }
      }
      if constexpr (std::is_copy_constructible_v<T>) {
        if (op == "const") { const T t = V::make(x); new (fresh(i)) H(t); return V::idx(t); }
        if (op == "aconst") { const T t = V::make(x); o(i) = t; return V::idx(t); }
      }
      if (op == "star") return star<V>(*o(i), x);
      if (op == "out") return out<V>(*o(i));
      if (op == "bad") return dies([&] { V::idx(*std::as_const(o(i))); }) && dies([&] { V::idx(*o(i).operator->()); }) ? 0 : -5;
    } else {
      if (op == "eat") { if constexpr (requires { K::eat(std::move(o(i))); }) return K::eat(std::move(o(i))); }
      if (op == "id") { if constexpr (requires { K::id(std::move(o(i))); }) { auto&& t = K::id(std::move(o(i))); return code(t); } }
    }
    if constexpr (K::res) {
      using A = typename K::V1; using B = typename K::V2;
      constexpr bool ua = std::is_same_v<typename A::T, rs_std::unit_t>, ub = std::is_same_v<typename B::T, rs_std::unit_t>;
      int how = op == "res" ? 0 : op == "resin" ? 1 : op == "ares" ? 2 : -1;
      if (how >= 0) return v == 1 ? res<A>(i, v, x, how) : res<B>(i, v, x, how);
      if (op == "star") { if (o(i).has_value()) { if constexpr (!ua) return star<A>(*o(i), x); } else if constexpr (!ub) return star<B>(o(i).error(), x); }
      if (op == "out") { if (o(i).has_value()) { if constexpr (!ua) return out<A>(*o(i)); } else if constexpr (!ub) return out<B>(o(i).error()); }
      if (op == "bad") {
        if constexpr (!ua) { if (v == 1) return dies([&] { A::idx(std::as_const(o(i)).value()); }) && dies([&] { A::idx(*o(i)); }) ? 0 : -5; }
        if constexpr (!ub) { if (v == 2) return dies([&] { B::idx(std::as_const(o(i)).error()); }) && dies([&] { B::idx(o(i).err()); }) ? 0 : -5; }
      }
    }
    if constexpr (K::en) { if (op == "make") { if (std::is_move_constructible_v<H> || true) K::make((H*)fresh(i), v, x); return 0; } }
    if constexpr (K::reprc) { if (op == "write") { K::write(o(i), v, x); return 0; } }
    return -99;
  }
  void all(std::istringstream& in, std::ostringstream& out) {
    std::string op;
    int i, j, v, x, base[3];
    for (int k = 0; k < 3; ++k) base[k] = M::live(k);
    while (in >> op >> i >> j >> v >> x) {
      out << step(op, i, j, v, x) << "|";
      for (int k = 1; k <= 2; ++k) {
        if (!up[k - 1]) { out << "- "; continue; }
        auto [c, p] = look(o(k));
        int r = K::see(o(k));
        out << r;
        if (c != r) out << "!=" << c;
        if ((uintptr_t)p != K::at(o(k))) out << "@";
        for (size_t b = sizeof(H); b < sizeof mem[0]; ++b) if (mem[k - 1][b] != mark[k - 1]) { out << "~"; break; }
        out << " ";
      }
      for (int k = 0; k < 3; ++k) out << M::live(k) - base[k] << (k < 2 ? "," : ";");
    }
    kill(1); kill(2);
    for (int k = 0; k < 3; ++k) if (M::live(k) != base[k]) out << "LEFT" << k;
  }
  static void table(std::ostringstream& out) {
    out << std::is_copy_constructible_v<H> << std::is_copy_assignable_v<H> << std::is_move_constructible_v<H> << std::is_move_assignable_v<H> << std::is_default_constructible_v<H>;
  }
};
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    std::istringstream in(l);
    std::ostringstream out;
    int k;
    in >> k;
    if (k < 0) switch (-k) { TABLES }
    else switch (k) { RUNS }
    std::cout << "=> " << out.str() << std::endl;
  }
}
'''


def kinds(rng, k, size):
    """World k: payload types and holders, numbered."""
    P, K = [], []
    def pay(cls, atoms=None):
        p = Payload(rng, len(P) + 1, cls, atoms)
        if cls not in ("prim", "none"):
            P.append(p)
        return p
    add = lambda *a, **kw: K.append(Kind(rng, len(K) + 1, *a, **kw))
    none = lambda: pay("none")
    single = sorted(ATOMS)
    for c in CLASSES[:-1]:  # Options of immovable types are not bound
        # over the worlds every atom comes up alone, as the only niche there is
        pool = [a for a in single if not (ATOMS[a][3] and c in ("copy", "bits"))]
        add("option", [none(), pay(c, None if c == "prim" else [pool[(k * 7 + len(K)) % len(pool)]] if k % 2 else None)])
    for c in ("both", "clone"):  # without niche
        add("option", [none(), pay(c, [["u8", "u64", "arr", "f64", "u32"][k % 5]])])
    seen = {x.rs for x in K}
    K[:] = [x for i, x in enumerate(K)]
    for i in range(size):
        a, b = rng.choice(CLASSES + ["none"]), rng.choice(CLASSES)
        if rng.random() < .1:
            b = "none"
        if a == b == "none":
            continue
        x = Kind(rng, len(K) + 1, "result", [pay(a), pay(b)])
        if x.rs not in seen:
            seen.add(x.rs)
            K.append(x)
    for i in range(size):
        form = ["enum", "reprc"][i % 2]
        n = rng.choice([1, 2, 3, 4])
        # in C++ the variants of a repr(C) enum are members of a union of their own
        ps = [pay(rng.choice(CLASSES + ["none", "none", "copy", "prim"])) for _ in range(n)]
        if all(p.cls == "none" for p in ps) and n == 1:
            ps.append(pay("copy"))
        cls = {p.cls for p in ps}
        copy = cls <= {"prim", "copy", "none"} and rng.random() < .6
        clone = not copy and cls <= {"prim", "copy", "none", "both", "clone"} and rng.random() < .6
        rep = rng.choice(["C", "C", "C, u8", "C, i8", "C, i64", "C, u16"]) if form == "reprc" else rng.choice(["", "", "u8", "i16", "u64"])
        discr = None
        if rep not in ("", "C") and rng.random() < .6:
            lo = -100 if "i" in rep else 3
            discr = [lo + 37 * j for j in range(len(ps))]
            rng.shuffle(discr)
        elif rep == "C" and all(p.cls == "none" for p in ps):
            discr = rng.sample([-5, 0, 2147483647, -2147483648, 77], len(ps))
        dflts = [j for j, p in enumerate(ps, 1)]
        add(form, ps, rep=rep, extra=[rng.choice([0, 0, 1, 2]) for _ in ps], dflt=rng.choice([0, rng.choice(dflts)]), clone=clone, copy=copy, discr=discr)
    return P, K


def sources(P, K):
    rs = HEAD + "".join(p.decl() for p in P) + "".join(x.rust() for x in K)
    cc = CXX.replace("KINDS", "".join(x.cxx() for x in K)).replace("TABLES", " ".join(f"case {x.n}: Run<K{x.n}>::table(out); break;" for x in K)).replace("RUNS", " ".join(f"case {x.n}: Run<K{x.n}>().all(in, out); break;" for x in K))
    return rs, cc


def expected(h):
    o = ""
    for e in h:
        o += f"{e['res']}|" + "".join("- " if not a else f"{a[0] * 10 + a[1]} " for a in e["obj"]) + ",".join(map(str, e["live"])) + ";"
    return o


def build(c, k):
    rng = random.Random(c.seed * 1000 + k)
    P, K = kinds(rng, k, c.pick(5, 8))
    rs, cc = sources(P, K)
    cr = Crate(f"vart{k}", rs, rustc_args=support_externs())
    try:
        return P, K, cr, cr.build(cc.replace("MOD", cr.name), ("-O0", "-fsanitize=address"), ("-fsanitize=address",), SUPPORT_SRC)
    except GeneratedCodeError as e:
        return P, K, cr, e


def run(c):
    generator(); stdlib()
    n = c.pick(5, 20)
    with ThreadPoolExecutor(6) as ex:
        fut = [ex.submit(build, c, k) for k in range(n)]
        # the abstract kinds are known without building
        abs_, where = [], []
        for k in range(n):
            P, K = kinds(random.Random(c.seed * 1000 + k), k, c.pick(5, 8))
            for x in K:
                a = x.abstract()
                if a not in abs_:
                    abs_.append(a)
                where.append((k, x.n, abs_.index(a)))
        inv = dict(invariants=["Typed"], properties=["Named", "ReadsKeep", "NoForgery"], view="View")
        parts = [abs_[i::4] for i in range(4)]
        fs = [ex.submit(tlc, "Variant", dict(Kinds=p, Objects=2, MaxSteps=12, Sample=0, Targets={1} if not c.thorough else {1, 2}), emit="Emit", **inv) for p in parts]
        fs += [ex.submit(tlc, "Variant", dict(Kinds=p, Objects=2, MaxSteps=30, Sample=1, Targets={1, 2}), emit="EmitLast", simulate=c.pick(60, 600), depth=31, seed=c.seed + i, workers=4, **inv) for i, p in enumerate(parts)]
        by = {i: [] for i in range(len(abs_))}
        for i, f in enumerate(fs):
            r = f.result()
            c.add_tlc(r, f"kinds {i % 4}, " + ("every step in every state" if i < 4 else "random"))
            for h in r.histories:
                by[(h[0]["kind"] - 1) * 4 + i % 4].append(h)
        worlds = [f.result() for f in fut]
    for k, (P, K, cr, drv) in enumerate(worlds):
        try:
            if isinstance(drv, GeneratedCodeError):
                c.violation(f"enum-like values of a crate cannot be used: {drv}"[:1500] + f" [world {k}]", {"error": str(drv), "kinds": [x.abstract() for x in K]})
                continue
            lines, hs = [], []
            for x in K:
                a = [w[2] for w in where if w[:2] == (k, x.n)][0]
                c.extra.setdefault("layouts", []).append(x.rs if not x.enum() else f"enum[{x.rep}] of {len(x.ps)}")
                if by[a]:
                    t = by[a][0][0]
                    lines.append(f"-{x.n}")
                    hs.append((x, None, "".join(str(int(t[q])) for q in ("copy", "copy", "move", "move", "dflt"))))
                for h in by[a]:
                    lines.append(f"{x.n} " + " ".join(f"{e['op']} {e['i']} {e['j']} {e['v']} {e['x']}" for e in h[1:]))
                    hs.append((x, h[1:], expected(h[1:])))
            bad = {}
            for (x, h, want), l, got in zip(hs, lines, run_sharded(drv, lines)):
                if h:
                    c.traces += 1
                if got != want and bad.setdefault(x.n, 0) < 2:
                    bad[x.n] += 1
                    desc = dict(type=x.rs, form=x.form, repr=x.rep, payloads=[getattr(p, "atoms", p.rs) for p in x.ps], classes=[p.cls for p in x.ps])
                    if not h:
                        c.violation(f"{x.rs} {desc['classes']}: copy/move/default offered {got}, expected {want}", desc)
                    else:
                        ws, os_ = want.split(";"), got.split(";")
                        i = next((i for i, (p, q) in enumerate(zip(ws, os_)) if p != q), len(os_) - 1)
                        e = h[i] if i < len(h) else {"op": "end"}
                        c.violation(f"{x.rs} {desc['payloads']} {desc['classes']} {x.rep}: {e['op']}: expected {ws[i]}, observed {os_[i]}", {**desc, "history": l, "expected": want, "observed": got})
        finally:
            cr.clean()
    c.sample([x.rs for x in worlds[0][1]])
    c.extra["kinds"] = len(where)
