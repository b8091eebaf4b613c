"""Turns signatures of spec/Call.tla into Rust functions, C++ callers and expected observations."""
import json, random

NV, NC = 4, 3

RUST_PRELUDE = r'''
#![allow(dead_code, unused, static_mut_refs, improper_ctypes_definitions)]
use std::cell::RefCell;
thread_local!(static LOG: RefCell<String> = const { RefCell::new(String::new()) });
#[no_mangle] extern "C" fn t_log(out: *mut *const u8) -> usize { LOG.with(|l| { let l = l.borrow(); unsafe { *out = l.as_ptr() }; l.len() }) }
#[no_mangle] extern "C" fn t_clear() { LOG.with(|l| l.borrow_mut().clear()) }
static mut BASE: usize = 0;
#[no_mangle] extern "C" fn t_base(p: usize) { unsafe { BASE = p } }
fn rec(s: String) { LOG.with(|l| { let mut l = l.borrow_mut(); if !l.is_empty() { l.push(' ') } l.push_str(&s) }) }
trait Can { fn c(&self, o: &mut String); }
fn can<T: Can + ?Sized>(x: &T) -> String { let mut s = String::new(); x.c(&mut s); s }
macro_rules! num { ($($t:ty),*) => { $(impl Can for $t { fn c(&self, o: &mut String) { o.push_str(&self.to_string()) } })* } }
num!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl Can for bool { fn c(&self, o: &mut String) { o.push_str(if *self { "T" } else { "F" }) } }
impl Can for f32 { fn c(&self, o: &mut String) { o.push_str(&format!("f{}", self.to_bits())) } }
impl Can for f64 { fn c(&self, o: &mut String) { o.push_str(&format!("d{}", self.to_bits())) } }
impl Can for char { fn c(&self, o: &mut String) { o.push_str(&format!("c{}", *self as u32)) } }
impl Can for () { fn c(&self, o: &mut String) { o.push_str("u") } }
impl Can for str { fn c(&self, o: &mut String) { o.push('s'); for b in self.bytes() { o.push_str(&format!("{b:02x}")) } } }
impl Can for String { fn c(&self, o: &mut String) { self.as_str().c(o) } }
impl<T: Can + ?Sized> Can for &T { fn c(&self, o: &mut String) { (**self).c(o) } }
impl<T: Can> Can for [T] { fn c(&self, o: &mut String) { o.push('['); for x in self { x.c(o); o.push(';') } o.push(']') } }
impl<T: Can> Can for [T; 2] { fn c(&self, o: &mut String) { self.as_slice().c(o) } }
impl<A: Can> Can for (A,) { fn c(&self, o: &mut String) { o.push('('); self.0.c(o); o.push_str(";)") } }
impl<A: Can, B: Can> Can for (A, B) { fn c(&self, o: &mut String) { o.push('('); self.0.c(o); o.push(';'); self.1.c(o); o.push_str(";)") } }
impl<A: Can, B: Can, C: Can> Can for (A, B, C) { fn c(&self, o: &mut String) { o.push('('); self.0.c(o); o.push(';'); self.1.c(o); o.push(';'); self.2.c(o); o.push_str(";)") } }
impl<A: Can> Can for Option<A> { fn c(&self, o: &mut String) { match self { None => o.push('N'), Some(x) => { o.push_str("S("); x.c(o); o.push(')') } } } }
impl<A: Can, B: Can> Can for Result<A, B> { fn c(&self, o: &mut String) { match self { Ok(x) => { o.push_str("O("); x.c(o); o.push(')') } Err(x) => { o.push_str("E("); x.c(o); o.push(')') } } } }
impl Can for *mut i32 { fn c(&self, o: &mut String) { if self.is_null() { o.push_str("p-") } else { o.push_str(&format!("p{}", (*self as usize).wrapping_sub(unsafe { BASE }) as isize)) } } }
impl Can for extern "C" fn(i32) -> i32 { fn c(&self, o: &mut String) { o.push_str(&format!("x{},{},{}", self(0), self(1), self(-7))) } }
#[derive(Clone, Copy)] pub struct S { pub a: u8, pub b: i32 }
impl S { pub fn mk(a: u8, b: i32) -> S { S { a, b } } }
impl Can for S { fn c(&self, o: &mut String) { o.push_str(&format!("{{{},{}}}", self.a, self.b)) } }
#[derive(Clone)] pub struct Big { x: [u64; 4], s: String }
impl Big { pub fn mk(v: u64) -> Big { Big { x: [v, !v, v ^ 5, v.rotate_left(7)], s: format!("big string number {v}") } }
  pub fn key(&self) -> u64 { let v = self.x[0]; assert!(self.x == [v, !v, v ^ 5, v.rotate_left(7)] && self.s == format!("big string number {v}")); v } }
impl Default for Big { fn default() -> Big { Big::mk(99) } }
impl Drop for Big { fn drop(&mut self) { self.key(); } }
impl Can for Big { fn c(&self, o: &mut String) { o.push_str(&format!("B{}", self.key())) } }
#[derive(Clone, Copy)] pub enum E { A, B(i32), C { x: u8, y: bool } }
impl E { pub fn mk(v: u8) -> E { match v { 0 => E::A, 1 => E::B(-1), 2 => E::B(i32::MIN), _ => E::C { x: v, y: v % 2 == 0 } } }
  pub fn key(&self) -> u64 { match self { E::A => 0, E::B(i) => (1 << 40) + (*i as u32 as u64), E::C { x, y } => (2 << 40) + *x as u64 * 2 + *y as u64 } } }
impl Can for E { fn c(&self, o: &mut String) { o.push_str(&format!("e{}", self.key())) } }
#[derive(Clone, Copy)] #[repr(u8)] pub enum CE { X = 3, Y = 200, Z = 0 }
impl CE { pub fn key(&self) -> u64 { *self as u64 } }
impl Can for CE { fn c(&self, o: &mut String) { o.push_str(&format!("k{}", self.key())) } }
#[derive(Clone, Copy)] #[repr(transparent)] pub struct Tr(pub u16);
impl Tr { pub fn mk(a: u16) -> Tr { Tr(a) } }
impl Can for Tr { fn c(&self, o: &mut String) { o.push_str(&format!("t{}", self.0)) } }
use std::cmp::Ordering;
impl Can for Ordering { fn c(&self, o: &mut String) { o.push_str(&format!("o{}", *self as i8)) } }
pub fn mk_ord(v: u8) -> Ordering { match v { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater } }
pub fn key_ord(o: Ordering) -> i8 { o as i8 }
pub fn mk_string(v: &str) -> String { v.to_string() }
pub fn str_of<'a>(v: &'a String) -> &'a str { v }
extern "C" fn rf0(x: i32) -> i32 { x.wrapping_mul(2) }
extern "C" fn rf1(x: i32) -> i32 { x ^ 0x55 }
'''

CXX_PRELUDE = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <iostream>
#include <sstream>
#include <optional>
#include <tuple>
#include <array>
#include <memory>
#include <type_traits>
#include "MOD.h"
namespace M = ::MOD;
extern "C" { size_t t_log(const unsigned char** out); void t_clear(); void t_base(size_t); }
static int32_t g_ints[3] = {1, 2, 3};
static int32_t cf0(int32_t x) { return (int32_t)(2u * (uint32_t)x); }
static int32_t cf1(int32_t x) { return x ^ 0x55; }
using Fn = int32_t(int32_t);
static std::istringstream in;
static int nx() { int v; in >> v; return v; }
template <class T> struct Ref { T* p; operator T*() const { return p; } operator T&() const { return *p; } };
template <class T> static const T* addr(const T& r) { return &r; }
inline std::string C(bool b) { return b ? "T" : "F"; }
template <class T> requires(std::is_integral_v<T> && !std::is_same_v<T, bool>) std::string C(T v) { return std::to_string(v); }
inline std::string C(float v) { uint32_t u; memcpy(&u, &v, 4); return "f" + std::to_string(u); }
inline std::string C(double v) { uint64_t u; memcpy(&u, &v, 8); return "d" + std::to_string(u); }
inline std::string C(rs_std::char_ v) { return "c" + std::to_string(static_cast<uint32_t>(v)); }
inline std::string C(std::tuple<>) { return "u"; }
inline std::string C(rs_std::unit_t) { return "u"; }
inline std::string C(int32_t* p) { return p ? "p" + std::to_string((ptrdiff_t)((size_t)p - (size_t)g_ints)) : "p-"; }
inline std::string C(Fn* f) { return "x" + std::to_string(f(0)) + "," + std::to_string(f(1)) + "," + std::to_string(f(-7)); }
inline std::string hex(const char* p, size_t n) { std::string o = "s"; char b[3]; for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", (unsigned char)p[i]); o += b; } return o; }
inline std::string C(rs_std::StrRef s) { std::string_view v(s); return hex(v.data(), v.size()); }
inline std::string C(const M::S& s) { return "{" + std::to_string(s.a) + "," + std::to_string(s.b) + "}"; }
inline std::string C(const M::Big& s) { return "B" + std::to_string(s.key()); }
inline std::string C(const M::E& s) { return "e" + std::to_string(s.key()); }
inline std::string C(const M::CE& s) { return "k" + std::to_string(s.key()); }
inline std::string C(const M::Tr& s) { return "t" + std::to_string(s.__field0); }
inline std::string C(const ::rs::core::cmp::Ordering& s) { return "o" + std::to_string(M::key_ord(s)); }
inline std::string C(const ::rs::alloc::string::String& s) { return C(M::str_of(Ref<const ::rs::alloc::string::String>{&s})); }
template <class T> requires(std::is_class_v<T>) std::string C(const T* p);
template <class T> requires(std::is_class_v<T>) std::string C(T* p) { return C((const T*)p); }
template <class... T> std::string C(const std::tuple<T...>& t);
template <class T> std::string C(const std::optional<T>& t);
template <class T> std::string C(const rs_std::Option<T>& t);
template <class... T> requires(sizeof...(T) > 0) std::string C(const rs_std::Tuple<T...>& t);
template <class T, class E> std::string C(const rs_std::Result<T, E>& t);
template <class T, size_t N> std::string C(const std::array<T, N>& t);
template <class T> std::string C(rs_std::SliceRef<T> t);
template <class T> struct Deref { static std::string c(const T& t) { return C(t); } };
template <class T> requires(std::is_class_v<T>) std::string C(const T* p) { return C(*p); }
template <class... T> std::string C(const std::tuple<T...>& t) { return std::apply([](const auto&... x) { std::string o = "("; ((o += D(x) + ";"), ...); return o + ")"; }, t); }
'''
# D is C, except that a pointer is printed as what it points to unless it is the raw-pointer leaf: see `form` below.


def leaf_tables(rnd):
    """Boundary values per leaf: (rust expression, C++ expression, canonical text)."""
    def ints(bits, signed):
        if signed:
            vs = [0, -1, 1, -(1 << bits - 1), (1 << bits - 1) - 1, rnd.randrange(-(1 << bits - 1), 1 << bits - 1)]
        else:
            vs = [0, 1, (1 << bits) - 1, 1 << bits - 1, (1 << bits - 1) - 1, rnd.randrange(1 << bits)]
        t = f"{'i' if signed else 'u'}{bits}"
        out = []
        for v in vs:
            r = f"({v}{t})" if v != -(1 << 63) else f"{t}::MIN"
            cx = f"(::std::{'' if signed else 'u'}int{bits}_t)" + (f"({v}LL)" if v != -(1 << 63) else "(-9223372036854775807LL-1)") if signed else f"(::std::uint{bits}_t)({v}ULL)"
            out.append((r, cx, str(v)))
        return out
    T = {}
    for b in (8, 16, 32, 64):
        T[f"i{b}"], T[f"u{b}"] = ints(b, True), ints(b, False)
    T["isize"] = [(r.replace("i64", "isize"), c.replace("int64_t", "intptr_t"), k) for r, c, k in T["i64"]]
    T["usize"] = [(r.replace("u64", "usize"), c.replace("uint64_t", "uintptr_t"), k) for r, c, k in T["u64"]]
    T["bool"] = [("false", "false", "F"), ("true", "true", "T")]
    f32 = [0, 0x80000000, 0x3f800000, 0x7f800000, 0x7fc12345, 0x7fa00001, 1, rnd.randrange(1 << 31)]
    f64 = [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff8000000abcdef, 0x7ff4000000000001, 1, rnd.randrange(1 << 63)]
    T["f32"] = [(f"f32::from_bits({v}u32)", f"std::bit_cast<float>((uint32_t){v}u)", f"f{v}") for v in f32]
    T["f64"] = [(f"f64::from_bits({v}u64)", f"std::bit_cast<double>((uint64_t){v}ull)", f"d{v}") for v in f64]
    ch = [0, 0x61, 0xd7ff, 0xe000, 0x10ffff, rnd.randrange(0x10000, 0x110000)]
    T["char"] = [(f"char::from_u32({v}).unwrap()", f"rs_std::char_::from_u32({v}).value()", f"c{v}") for v in ch]
    T["()"] = [("()", "UNIT", "u")]
    st = ["", "a", "a\0b", "\u00e9\u20ac\U0001f600", "x" * 40]
    cs = lambda s: '"' + "".join(f"\\{b:03o}" for b in s.encode()) + '"'
    rs = lambda s: '"' + "".join(f"\\u{{{ord(c):x}}}" for c in s) + '"'
    T["&str"] = [(rs(s), f"rs_std::StrRef::FromUtf8(std::string_view({cs(s)}, {len(s.encode())})).value()", "s" + s.encode().hex()) for s in st]
    T["String"] = [(rs(s) + ".to_string()", f"M::mk_string(rs_std::StrRef::FromUtf8(std::string_view({cs(s)}, {len(s.encode())})).value())", "s" + s.encode().hex()) for s in st]
    T["S"] = [(f"S {{ a: {a}, b: {b} }}", f"M::S::mk({a}, {b})", f"{{{a},{b}}}") for a, b in [(0, 0), (255, -1), (1, 2147483647), (7, rnd.randrange(1 << 30))]]
    T["Big"] = [(f"Big::mk({v})", f"M::Big::mk({v}u)", f"B{v}") for v in (0, 1, 18446744073709551615, rnd.randrange(1 << 62))]
    ek = {0: 0, 1: (1 << 40) + 0xffffffff, 2: (1 << 40) + 0x80000000, 4: (2 << 40) + 9, 255: (2 << 40) + 510}
    T["E"] = [(f"E::mk({v})", f"M::E::mk({v})", f"e{k}") for v, k in ek.items()]
    T["CE"] = [(f"CE::{n}", f"M::CE::Make{n}()", f"k{v}") for n, v in (("X", 3), ("Y", 200), ("Z", 0))]
    T["Tr"] = [(f"Tr({v})", f"M::Tr::mk({v})", f"t{v}") for v in (0, 65535, 258)]
    T["Ord"] = [(f"mk_ord({v})", f"M::mk_ord({v})", f"o{v - 1}") for v in (0, 1, 2)]
    T["Ptr"] = [("std::ptr::null_mut()", "(int32_t*)nullptr", "p-")] + [(f"unsafe {{ (BASE as *mut i32).wrapping_add({k}) }}", f"(int32_t*)(g_ints + {k})", f"p{4 * k}") for k in (0, 2)]
    fx = lambda f: "x" + ",".join(str(f(v)) for v in (0, 1, -7))
    T["fnp"] = [('(rf0 as extern "C" fn(i32) -> i32)', "cf0", fx(lambda x: 2 * x)), ('(rf1 as extern "C" fn(i32) -> i32)', "cf1", fx(lambda x: x ^ 0x55))]
    return T


RUST = {"&str": "&'static str", "Ptr": "*mut i32", "fnp": 'extern "C" fn(i32) -> i32', "Ord": "std::cmp::Ordering"}
CXX = {"bool": "bool", "f32": "float", "f64": "double", "char": "rs_std::char_", "isize": "::std::intptr_t", "usize": "::std::uintptr_t",
       "&str": "rs_std::StrRef", "String": "::rs::alloc::string::String", "Ptr": "int32_t*", "fnp": "Fn*", "Ord": "::rs::core::cmp::Ordering",
       "S": "M::S", "Big": "M::Big", "E": "M::E", "CE": "M::CE", "Tr": "M::Tr"}
for _b in (8, 16, 32, 64):
    CXX[f"i{_b}"], CXX[f"u{_b}"] = f"::std::int{_b}_t", f"::std::uint{_b}_t"


def rust_ty(t):
    k, a = t["k"], t["a"]
    if k == "leaf":
        return RUST.get(t["n"], t["n"])
    if k == "tup":
        return "(" + "".join(rust_ty(x) + ", " for x in a) + ")"
    return {"opt": "Option<{}>", "arr": "[{}; 2]", "ref": "&'static {}", "sl": "&'static [{}]", "res": "Result<{}, {}>"}[k].format(*map(rust_ty, a))


def cxx_ty(t, top=True):
    k, a = t["k"], t["a"]
    if k == "leaf":
        return CXX[t["n"]] if t["n"] != "()" else ("std::tuple<>" if top else "rs_std::unit_t")
    if k == "tup":
        return ("std::tuple<" if top else "rs_std::Tuple<") + ", ".join(cxx_ty(x, top) for x in a) + ">"
    if k == "opt":
        return f"std::optional<{cxx_ty(a[0], True)}>" if top else f"rs_std::Option<{cxx_ty(a[0], False)}>"
    return {"arr": "std::array<{}, 2>", "ref": "{} const*", "sl": "rs_std::SliceRef<{} const>", "res": "rs_std::Result<{}, {}>"}[k].format(*(cxx_ty(x, False) for x in a))


class Values:
    """Concrete values of the abstract ids: value(term, id) -> (rust, C++, canonical) expressions."""

    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.seed = seed
        self.tab = leaf_tables(self.rnd)
        self.n = 0

    def tree(self, t, vid, path=()):
        """The value tree: leaf index, or ("N",), ("S", x) ... chosen deterministically."""
        h = random.Random(f"{self.seed}/{json.dumps(t, sort_keys=True)}/{path}/{vid}")
        off = random.Random(f"{self.seed}/{json.dumps(t, sort_keys=True)}/{path}").randrange(97)
        k, a = t["k"], t["a"]
        if k == "leaf":
            return (vid + off) % len(self.tab[t["n"]])
        if k == "opt":
            return None if (vid + off) % 4 == 0 else (self.tree(a[0], vid, path + (0,)),)
        if k == "res":
            s = (vid + off) % 2
            return (s, self.tree(a[s], vid + h.randrange(2), path + (s,)))
        if k == "arr":
            return [self.tree(a[0], vid + i, path + (i,)) for i in range(2)]
        if k == "sl":
            return [self.tree(a[0], vid + i, path + (i,)) for i in range((vid + off) % 3)]
        if k == "ref":
            return self.tree(a[0], vid, path + (0,))
        return [self.tree(x, vid + i, path + (i,)) for i, x in enumerate(a)]

    def canon(self, t, v, side):
        """side: 0 the value was made by Rust, 1 by C++ (they differ only in function pointers)."""
        k, a = t["k"], t["a"]
        if k == "leaf":
            c = self.tab[t["n"]][v][2]
            return c if isinstance(c, str) else c[side]
        if k == "opt":
            return "N" if v is None else f"S({self.canon(a[0], v[0], side)})"
        if k == "res":
            return f"{'OE'[v[0]]}({self.canon(a[v[0]], v[1], side)})"
        if k == "arr" or k == "sl":
            return "[" + "".join(self.canon(a[0], x, side) + ";" for x in v) + "]"
        if k == "ref":
            return self.canon(a[0], v, side)
        return "(" + "".join(self.canon(x, y, side) + ";" for x, y in zip(a, v)) + ")"

    def rust(self, t, v):
        k, a = t["k"], t["a"]
        if k == "leaf":
            return self.tab[t["n"]][v][0]
        if k == "opt":
            return "None" if v is None else f"Some({self.rust(a[0], v[0])})"
        if k == "res":
            return f"{('Ok', 'Err')[v[0]]}({self.rust(a[v[0]], v[1])})"
        if k == "arr":
            return "[" + ", ".join(self.rust(a[0], x) for x in v) + "]"
        if k == "sl":
            return f"&*Box::leak(Box::<[{rust_ty(a[0])}]>::from(vec![" + ", ".join(self.rust(a[0], x) for x in v) + "]))"
        if k == "ref":
            return f"&*Box::leak(Box::<{rust_ty(a[0])}>::new({self.rust(a[0], v)}))"
        return "(" + "".join(self.rust(x, y) + ", " for x, y in zip(a, v)) + ")"

    def cxx(self, t, v, top=True):
        k, a = t["k"], t["a"]
        T = cxx_ty(t, top)
        if k == "leaf":
            return T + "{}" if t["n"] == "()" else self.tab[t["n"]][v][1]
        if k == "opt":
            return f"{T}(std::nullopt)" if v is None else f"{T}(std::in_place, {self.cxx(a[0], v[0], top)})"
        if k == "res":
            x = "" if a[v[0]]["n"] == "()" else ", " + self.cxx(a[v[0]], v[1], False)
            return f"{T}({('std::in_place', 'rs_std::unexpect')[v[0]]}{x})"
        if k == "arr":
            return f"{T}{{" + ", ".join(self.cxx(a[0], x, False) for x in v) + "}"
        if k == "sl":
            e = cxx_ty(a[0], False)
            return f"{T}(keep<{e}>({', '.join(self.cxx(a[0], x, False) for x in v)}), {len(v)})" if v else f"{T}()"
        if k == "ref":
            e = cxx_ty(a[0], False)
            return f"keep<{e}>({self.cxx(a[0], v, False)})"
        tt = f"std::tuple<{', '.join(cxx_ty(x, top) for x in a)}>"
        e = f"{tt}({', '.join(self.cxx(x, y, top) for x, y in zip(a, v))})"
        return e if top else f"{T}({e})"

    # functions printing a value of term t in C++ and the ones making value `id`
    def printer(self, t, top, expr):
        k, a = t["k"], t["a"]
        if k == "leaf":
            return f"C({expr})" if t["n"] != "()" else 'std::string("u")'
        self.n += 1
        x = f"x{self.n}"
        if k == "opt":
            return f'[&](const auto& {x}) {{ return {x}.has_value() ? "S(" + {self.printer(a[0], top, f"(*{x})")} + ")" : std::string("N"); }}({expr})'
        if k == "res":
            return (f'[&](const auto& {x}) {{ return {x}.has_value() ? "O(" + {self.printer(a[0], False, f"{x}.value()")} + ")" '
                    f': "E(" + {self.printer(a[1], False, f"{x}.error()")} + ")"; }}({expr})')
        if k in ("arr", "sl"):
            return f'[&](const auto& {x}) {{ std::string o = "["; for (size_t i = 0; i < {x}.size(); i++) {{ const auto& y = {x}.data()[i]; o += {self.printer(a[0], False, "y")} + ";"; }} return o + "]"; }}({expr})'
        if k == "ref":
            return self.printer(a[0], False, f"(*{expr})")
        std = f"std::tuple<{', '.join(cxx_ty(y, top) for y in a)}>"
        body = " + ".join(f'{self.printer(y, top, f"std::get<{i}>({x})")} + ";"' for i, y in enumerate(a))
        arg = expr if top else f"{std}({cxx_ty(t, False)}({expr}))"
        return f'[&](const auto& {x}) {{ return "(" + {body} + ")"; }}({arg})'


CXX_KEEP = r'''
template <class T, class... A> static const T* keep(A&&... a) { return reinterpret_cast<const T*>(new std::array<T, sizeof...(A)>{std::forward<A>(a)...}); }
'''


def canonical(t):
    return json.dumps(t, sort_keys=True)


class Module:
    """A crate of bound functions, one per signature, and its driver."""

    def __init__(self, name, sigs, vals):
        self.name, self.sigs, self.vals = name, sigs, vals
        self.types = {}
        for s in sigs:
            for p in s["params"]:
                self.types.setdefault(canonical(p["ty"]), (len(self.types), p["ty"]))

    def tix(self, t):
        return self.types[canonical(t)][0]

    def first(self, s, i):
        return next(j for j, p in enumerate(s["params"]) if canonical(p["ty"]) == canonical(s["params"][i]["ty"]))

    def partner(self, s, i):
        n = len(s["params"])
        for k in range(1, n):
            j = (i + k) % n
            if canonical(s["params"][j]["ty"]) == canonical(s["params"][i]["ty"]):
                return j
        return None

    def rust_src(self):
        V, o = self.vals, [RUST_PRELUDE]
        for ix, t in self.types.values():
            ty = rust_ty(t)
            o.append(f"fn lit{ix}() -> {ty} {{ {V.rust(t, V.tree(t, 1))} }}")
        for n, s in enumerate(self.sigs):
            ps, ret = s["params"], s["ret"]
            life = ret["k"] == "ref"
            names = [f"a{i}" for i in range(len(ps))]
            decl = []
            for i, p in enumerate(ps):
                ty, lt = rust_ty(p["ty"]), ("'a " if life and i == ret["ix"][0] - 1 else "")
                full = {"val": ty, "ref": f"&{lt}{ty}", "mut": f"&{lt}mut {ty}",
                        "sl": f"&{lt}[{rust_ty(p['ty']['a'][0]) if p['ty']['a'] else ''}]",
                        "msl": f"&{lt}mut [{rust_ty(p['ty']['a'][0]) if p['ty']['a'] else ''}]"}[p["mode"]]
                if i == 0 and s["recv"] == "self":
                    decl.append({"val": "self", "ref": f"&{lt}self", "mut": f"&{lt}mut self"}[p["mode"]])
                    names[0] = "self"
                else:
                    decl.append(f"a{i}: {full}")
            def own(i):
                ty = rust_ty(ps[i]["ty"])
                e = names[i]
                if ps[i]["mode"] in ("sl", "msl"):
                    return f"to2(&*{e})"
                return f"<{ty} as Clone>::clone(&{'*' if ps[i]['mode'] != 'val' else ''}{e})"
            body = [f'rec(format!("#{n}"));']
            body += [f"let v{i}: {rust_ty(ps[i]['ty'])} = {own(i)}; rec(can(&v{i}));" for i in range(len(ps))]
            for i, p in enumerate(ps):
                if p["mode"] in ("mut", "msl"):
                    j = self.partner(s, i)
                    src = f"<{rust_ty(p['ty'])} as Clone>::clone(&v{j})" if j is not None else f"lit{self.tix(p['ty'])}()"
                    body.append(f"{names[i]}.clone_from_slice(&{src});" if p["mode"] == "msl" else f"*{names[i]} = {src};")
            rt = lambda i: rust_ty(ps[i]["ty"])
            ixs = [i - 1 for i in ret["ix"]]
            rty, rex = "", ""
            if ret["k"] == "val":
                rty, rex = rt(ixs[0]), f"v{ixs[0]}"
            elif ret["k"] == "const":
                rty, rex = rt(ixs[0]), f"lit{self.tix(ps[ixs[0]]['ty'])}()"
            elif ret["k"] == "tup":
                rty, rex = f"({rt(ixs[0])}, {rt(ixs[1])})", f"(<{rt(ixs[0])} as Clone>::clone(&v{ixs[0]}), <{rt(ixs[1])} as Clone>::clone(&v{ixs[1]}))"
            elif ret["k"] == "ref":
                p = ps[ixs[0]]
                m = "mut " if p["mode"] in ("mut", "msl") else ""
                t = f"[{rust_ty(p['ty']['a'][0])}]" if p["mode"] in ("sl", "msl") else rt(ixs[0])
                rty, rex = f"&'a {m}{t}", names[ixs[0]]
            sig = f"fn f{n}{chr(60) + chr(39) + 'a' + chr(62) if life else ''}({', '.join(decl)})" + (f" -> {rty}" if rty else "") + " { " + " ".join(body) + f" {rex} }}"
            q = {"rust": "pub ", "C": 'pub extern "C" ', "nomangle": '#[no_mangle] pub extern "C" ', "unsafe": "pub unsafe "}[s["abi"]]
            if s["abi"] == "nomangle":
                sig = sig.replace(f"fn f{n}", f"fn f{n}", 1)
            if s["recv"] == "self":
                o.append(f"impl {rust_ty(ps[0]['ty'])} {{ {q}{sig} }}")
            elif s["recv"] == "static":
                o.append(f"impl S {{ {q}{sig} }}")
            elif n % 3 == 1 and s["abi"] != "nomangle":
                o.append(f"pub mod m{n} {{ use super::*; pub mod inner {{ use super::*; {q}{sig} }} }}")
            else:
                o.append(q + sig)
        o.append("fn to2<T: Clone>(x: &[T]) -> [T; 2] { assert!(x.len() == 2); [x[0].clone(), x[1].clone()] }")
        return "\n".join(o)

    def target(self, n):
        s = self.sigs[n]
        if s["recv"] == "static":
            return f"M::S::f{n}"
        if n % 3 == 1 and s["abi"] != "nomangle":
            return f"M::m{n}::inner::f{n}"
        return f"M::f{n}"

    def cxx_src(self, skip=()):
        V = self.vals
        o = [CXX_PRELUDE.split("template <class T> requires(std::is_class_v<T>) std::string C(const T* p);")[0].replace("MOD", self.name), CXX_KEEP]
        need_cell, need_lit = set(), set()
        for n, s in enumerate(self.sigs):
            if n not in skip:
                for p in s["params"]:
                    (need_lit if p["mode"] == "val" else need_cell).add(self.tix(p["ty"]))
        for ix, t in self.types.values():
            if ix in need_lit:
                o.append(f"static {cxx_ty(t)} mk{ix}(int id) {{ switch (id) {{ " + " ".join(f"case {v}: return {V.cxx(t, V.tree(t, v))};" for v in range(NV - 1)) +
                         f" default: return {V.cxx(t, V.tree(t, NV - 1))}; }} }}")
            if ix in need_cell:
                T = cxx_ty(t, False)
                o.append(f"static {T}* cell{ix}[{NC}];")
                o.append(f"static void init{ix}() {{ " + " ".join(f"delete cell{ix}[{c}]; cell{ix}[{c}] = new {T}({V.cxx(t, V.tree(t, c % NV), False)});" for c in range(NC)) + " }")
                o.append(f"static void show{ix}() {{ for (int c = 0; c < {NC}; c++) std::cout << ' ' << {V.printer(t, False, f'(*cell{ix}[c])')}; }}")
        for n, s in enumerate(self.sigs):
            if n in skip:
                continue
            ps, ret = s["params"], s["ret"]
            pre, args = [], []
            for i, p in enumerate(ps):
                x = self.tix(p["ty"])
                pre.append(f"int a{i} = nx();")
                T = cxx_ty(p["ty"], p["mode"] == "val")
                if p["mode"] == "val":
                    args.append(f"*mk{x}(a{i})" if p["ty"]["n"] == "fnp" else f"mk{x}(a{i})")
                elif p["mode"] == "ref":
                    args.append(f"Ref<const {self.cst(T)}>{{cell{x}[a{i}]}}")
                elif p["mode"] == "mut":
                    args.append(f"Ref<{self.cst(T)}>{{cell{x}[a{i}]}}")
                else:
                    e = cxx_ty(p["ty"]["a"][0], False)
                    args.append(f"rs_std::SliceRef<{'const ' if p['mode'] == 'sl' else ''}{self.cst(e)}>(cell{x}[a{i}]->data(), 2)".replace("const const ", "const "))
            if s["recv"] == "self":
                x = self.tix(ps[0]["ty"])
                r = f"mk{x}(a0)" if ps[0]["mode"] == "val" else f"cell{x}[a0]->" if ps[0]["mode"] == "mut" else f"const_cast<const {cxx_ty(ps[0]['ty'], False)}*>(cell{x}[a0])->"
                call = (r if r.endswith(">") else r + ".") + f"f{n}({', '.join(args[1:])})"
            else:
                call = f"{self.target(n)}({', '.join(args)})"
            if ret["k"] == "unit":
                run = f"{call}; show_log();"
            elif ret["k"] == "ref":
                i = ret["ix"][0] - 1
                p, x = ps[i], self.tix(ps[i]["ty"])
                if p["mode"] in ("sl", "msl"):
                    t = {"k": "sl", "n": "", "a": p["ty"]["a"]}
                    run = f"auto r = {call}; show_log(); std::cout << \" => \" << ((const void*)r.data() == (const void*)cell{x}[a{i}]->data() && r.size() == 2 ? \"\" : \"WRONG-ADDRESS \") << {V.printer(t, False, 'r')};"
                else:
                    run = f"auto&& r = {call}; const auto* q = addr(r); show_log(); std::cout << \" => \" << ((const void*)q == (const void*)cell{x}[a{i}] ? \"\" : \"WRONG-ADDRESS \") << {V.printer(p['ty'], False, '(*q)')};"
            else:
                t = {"k": "tup", "n": "", "a": [ps[i - 1]["ty"] for i in ret["ix"]]} if ret["k"] == "tup" else ps[ret["ix"][0] - 1]["ty"]
                q = "const auto* q = &r; " if t["k"] == "ref" else ""
                run = f"auto&& r = {call}; {q}show_log(); std::cout << \" => \" << {V.printer(t, True, 'q' if q else 'r')};"
            refs = sorted({self.tix(p["ty"]) for p in ps if p["mode"] != "val"})
            o.append(f"static void init_f{n}() {{ {' '.join(f'init{x}();' for x in refs)} }}")
            o.append(f"static void f{n}() {{ {' '.join(pre)} {run} std::cout << \" |\"; {' '.join(f'show{x}();' for x in refs)} }}")
        o.insert(2, 'static void show_log() { const unsigned char* p; size_t n = t_log(&p); std::cout.write((const char*)p, n); t_clear(); }')
        cases = "\n".join(f"    case {n}: if (op == 'i') init_f{n}(); else f{n}(); break;" for n in range(len(self.sigs)) if n not in skip)
        o.append(f'''
int main() {{
  t_base((size_t)g_ints);
  std::string line;
  while (std::getline(std::cin, line)) {{
    in.clear(); in.str(line);
    int f; in >> f;
    char op = 'i';
    while (true) {{
      switch (f) {{
{cases}
      }}
      if (op == 'c') std::cout << " / ";
      if (!(in >> op)) break;
    }}
    std::cout << std::endl;
  }}
}}''')
        return "\n".join(o)

    @staticmethod
    def cst(T):
        # `const` binds to the pointer, not to the pointee
        return f"std::type_identity_t<{T}>" if T.endswith("*") else T

    def script(self, n, hist):
        return f"{n} " + " ".join("c " + " ".join(map(str, h["args"])) for h in hist[1:])

    def expected(self, n, hist):
        """The line the driver must print."""
        s, V = self.sigs[n], self.vals
        ps = s["params"]
        can = lambda i, v: V.canon(ps[i]["ty"], V.tree(ps[i]["ty"], v), 0)
        reps = {}
        for i, p in enumerate(ps):
            if p["mode"] != "val":
                reps.setdefault(self.tix(p["ty"]), self.first(s, i))
        out = []
        for h in hist[1:]:
            o = " ".join([f"#{n}"] + [can(i, v) for i, v in enumerate(h["in"])])
            ix = [i - 1 for i in s["ret"]["ix"]]
            if s["ret"]["k"] == "tup":
                o += " => (" + "".join(can(i, v) + ";" for i, v in zip(ix, h["ret"])) + ")"
            elif ix:
                o += " => " + can(ix[0], h["ret"][0])
            o += " |" + "".join(" " + can(i, v) for x, i in sorted(reps.items()) for v in h["mem"][i])
            out.append(o)
        return " / ".join(out) + " / "
