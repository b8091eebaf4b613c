"""E04: structs, tuple structs and unions, field by field (spec/Layout.tla, spec/LayoutOf.tla)."""
import random
import re
from vf import *
from e2e import *

import E06
Payload = E06.Payload


class T:
    """A field type. mk(x): a Rust expression; idx(e): the value of the reference e, in Rust;
    cmk(x), cidx: the same in C++ (None: through Rust)."""

    def __init__(self, rs, cc, vals, cls="prim", cvals=None, cidx=None, eq=None, own=None, seen=True, uni=True):
        self.rs, self.cc, self.vals, self.cls, self.cvals, self.cidx, self.eq = rs, cc, vals, cls, cvals, cidx, eq or "*{e} == {v}"
        self.own, self.seen, self.uni, self.n = own or [0] * len(vals), seen, uni, None
        self.key = ""

    nv = property(lambda s: len(s.vals))


def ints():
    o = {}
    for b in (8, 16, 32, 64):
        hi = (1 << b) - 1
        o[f"u{b}"] = T(f"u{b}", f"uint{b}_t", ["0", str(hi), str(hi // 3)], cvals=["0", f"{hi}u" + ("l" if b == 64 else ""), f"{hi // 3}u" + ("l" if b == 64 else "")])
        o[f"i{b}"] = T(f"i{b}", f"int{b}_t", ["0", f"i{b}::MIN", "-2"], cvals=["0", f"INT{b}_MIN", "-2"])
    o["usize"] = T("usize", "uintptr_t", ["0", "usize::MAX", "77"], cvals=["0", "UINTPTR_MAX", "77"])
    o["isize"] = T("isize", "intptr_t", ["0", "isize::MIN", "-77"], cvals=["0", "INTPTR_MIN", "-77"])
    o["f32"] = T("f32", "float", ["0.0", "-1.5", "f32::MAX"], cvals=["0.0f", "-1.5f", "FLT_MAX"])
    o["f64"] = T("f64", "double", ["0.0", "-1.5", "f64::MIN_POSITIVE"], cvals=["0.0", "-1.5", "DBL_MIN"])
    o["bool"] = T("bool", "bool", ["false", "true"], cvals=["false", "true"])
    o["char"] = T("char", "rs_std::char_", ["'\\0'", "'\\u{10FFFF}'", "'\\u{D7FF}'"], cvals=[f"rs_std::char_::from_u32({c}).value()" for c in ("0", "0x10FFFF", "0xD7FF")])
    return o


CH = "rs_std::char_::from_u32({}).value()"
SCALARS = ints()
MORE = {
    "ptr": T("*const u32", "const uint32_t*", ["std::ptr::null()", "8 as *const u32", "!0 as *const u32"], cvals=["nullptr", "(const uint32_t*)8", "(const uint32_t*)~0ul"]),
    "mptr": T("*mut u8", "uint8_t*", ["std::ptr::null_mut()", "1 as *mut u8", "!0 as *mut u8"], cvals=["nullptr", "(uint8_t*)1", "(uint8_t*)~0ul"]),
    "ref": T("&'static u32", "const uint32_t*", ["&REFS[0]", "&REFS[1]", "&REFS[2]"], cvals=[f"&M::refs({i})" for i in range(3)], eq="std::ptr::eq(*{e}, {v})", uni=False),
    "str": T("&'static str", "rs_std::StrRef", ['""', '"a"', '"\\u{e9}z\\0"'], cvals=[f'rs_std::StrRef::FromUtf8(std::string_view({s})).value()' for s in ('""', '"a"', '"\\xc3\\xa9z\\0", 4')]),
    "slice": T("&'static [u16]", "rs_std::SliceRef<const uint16_t>", ["&SL[..0]", "&SL[..1]", "&SL[1..]"], cvals=[f"rs_std::SliceRef<const uint16_t>(std::span<const uint16_t>({a}))" for a in ("sl, 0", "sl, 1", "sl + 1, 2")],
               cidx="[](auto& w) { std::span<const uint16_t> s(w); for (int x = 0; x < 3; ++x) { std::span<const uint16_t> t = x == 0 ? std::span<const uint16_t>() : x == 1 ? std::span<const uint16_t>(sl, 1) : std::span<const uint16_t>(sl + 1, 2); if (std::ranges::equal(s, t)) return x; } return 5; }(v)"),
    "fn": T('extern "C" fn(i32) -> i32', "int32_t (*)(int32_t)", ["fa", "fb", "fc"], cvals=["M::getfn(0)", "M::getfn(1)", "M::getfn(2)"], eq="*{e} as *const () as usize == {v} as *const () as usize", cidx="v(10) - 10", uni=False),
    "arr8": T("[u8; 5]", "std::array<uint8_t, 5>", ["[0; 5]", "[255; 5]", "[1, 2, 3, 4, 5]"], cvals=["(std::array<uint8_t, 5>{})", "(std::array<uint8_t, 5>{255, 255, 255, 255, 255})", "(std::array<uint8_t, 5>{1, 2, 3, 4, 5})"]),
    "arr32": T("[u32; 2]", "std::array<uint32_t, 2>", ["[0; 2]", "[!0; 2]", "[1, 2]"], cvals=["(std::array<uint32_t, 2>{})", "(std::array<uint32_t, 2>{~0u, ~0u})", "(std::array<uint32_t, 2>{1, 2})"]),
    "arrc": T("[char; 2]", "std::array<rs_std::char_, 2>", ["['\\0'; 2]", "['a', 'b']", "['b', 'a']"], cvals=["(std::array<rs_std::char_, 2>{%s, %s})" % (CH.format(a), CH.format(b)) for a, b in ((0, 0), (97, 98), (98, 97))]),
    "arr2": T("[[u16; 2]; 3]", "std::array<std::array<uint16_t, 2>, 3>", ["[[0; 2]; 3]", "[[1, 2], [3, 4], [5, 6]]", "[[1, 2], [3, 4], [5, 7]]"],
              cvals=["(std::array<std::array<uint16_t, 2>, 3>{})"] + ["(std::array<std::array<uint16_t, 2>, 3>{{{1, 2}, {3, 4}, {5, %d}}})" % i for i in (6, 7)]),
    "tup": T("(u8, u32)", "rs_std::Tuple<uint8_t, uint32_t>", ["(0, 0)", "(1, !0)", "(255, 2)"], cvals=[f"rs_std::Tuple<uint8_t, uint32_t>(std::tuple<uint8_t, uint32_t>({a}))" for a in ("0, 0", "1, ~0u", "255, 2")],
             cidx="[](auto w) { std::tuple<uint8_t, uint32_t> t = std::move(w); return t == std::tuple<uint8_t, uint32_t>(0, 0) ? 0 : t == std::tuple<uint8_t, uint32_t>(1, ~0u) ? 1 : t == std::tuple<uint8_t, uint32_t>(255, 2) ? 2 : 5; }(v)"),
    "tups": T("(String, u8)", None, ["(String::new(), 0)", "(String::new(), 1)", "(\"long string on the heap, surely\".to_string(), 0)"], cls="both", uni=False),
    "opt": T("Option<u32>", "rs_std::Option<uint32_t>", ["None", "Some(0)", "Some(!0)"], cvals=["rs_std::Option<uint32_t>(std::nullopt)", "rs_std::Option<uint32_t>(0u)", "rs_std::Option<uint32_t>(~0u)"], cidx="!v.has_value() ? 0 : *v == 0 ? 1 : *v == ~0u ? 2 : 5"),
    "optb": T("Option<bool>", "rs_std::Option<bool>", ["None", "Some(false)", "Some(true)"], cvals=["rs_std::Option<bool>(std::nullopt)", "rs_std::Option<bool>(false)", "rs_std::Option<bool>(true)"], cidx="!v.has_value() ? 0 : *v ? 2 : 1"),
    "optr": T("Option<&'static u32>", None, ["None", "Some(&REFS[1])", "Some(&REFS[2])"], eq="*{e} == {v}", uni=False),
    "opts": T("Option<String>", "rs_std::Option<rs::alloc::string::String>", ["None", "Some(String::new())", "Some(\"long string on the heap, surely\".to_string())"], cls="both", uni=False),
    "res": T("Result<u8, u64>", "rs_std::Result<uint8_t, uint64_t>", ["Ok(0)", "Ok(9)", "Err(!0)"], cidx="v.has_value() ? (*v == 0 ? 0 : *v == 9 ? 1 : 5) : v.error() == ~0ul ? 2 : 5"),
    "string": T("String", "rs::alloc::string::String", ["String::new()", '"a".to_string()', '"long string on the heap, surely".to_string()'], cls="both", uni=False),
    "vec": T("Vec<u16>", "rs_std::Vec<uint16_t>", ["vec![]", "vec![1]", "vec![2; 40]"], cls="both", uni=False),
    "dur": T("std::time::Duration", "rs::core::time::Duration", ["std::time::Duration::ZERO", "std::time::Duration::MAX", "std::time::Duration::new(1, 999_999_999)"]),
    "ord": T("std::cmp::Ordering", "rs::core::cmp::Ordering", ["std::cmp::Ordering::Less", "std::cmp::Ordering::Equal", "std::cmp::Ordering::Greater"]),
    "nest": T("Nest", "M::Nest", ["Nest { a: 0, b: 0, c: 0 }", "Nest { a: 1, b: !0, c: 2 }", "Nest { a: 255, b: 7, c: 3 }"], cidx="v.a == 0 && v.b == 0 ? 0 : v.a == 1 && v.b == ~0u ? 1 : v.a == 255 && v.b == 7 ? 2 : 5"),
    "nestc": T("NestC", "M::NestC", ["NestC(0, 0)", "NestC(1, -1)", "NestC(-1, 1)"], cidx="v.__field0 == 0 && v.__field1 == 0 ? 0 : v.__field0 == 1 && v.__field1 == -1 ? 1 : v.__field0 == -1 && v.__field1 == 1 ? 2 : 5"),
    "enum": T("Eo", "M::Eo", ["Eo::A", "Eo::B(0)", "Eo::B(9)"]),
    "enumc": T("EnC", "M::EnC", ["EnC::A", "EnC::B(0)", "EnC::B(9)"], cidx="v.tag == M::EnC::Tag::A ? 0 : v.B.__field0 == 0 ? 1 : v.B.__field0 == 9 ? 2 : 5"),
    "al32": T("Al32", "M::Al32", ["Al32 { a: 0 }", "Al32 { a: 1 }", "Al32 { a: 255 }"], cidx="v.a == 0 ? 0 : v.a == 1 ? 1 : v.a == 255 ? 2 : 5"),
    "union": T("Un", "M::Un", ["Un { a: 0 }", "Un { a: !0 }", "Un { a: 77 }"], eq="unsafe {{ {e}.a == {v}.a }}"),
}
HIDDEN = {
    "u128": T("u128", None, ["0", "!0", "1 << 64"], "blob", seen=False), "unit": T("()", None, ["()"], "zst", seen=False),
    "phantom": T("std::marker::PhantomData<u64>", None, ["std::marker::PhantomData"], "zst", seen=False), "arr0": T("[u32; 0]", None, ["[]"], "zst", seen=False),
    "unitst": T("Unit", None, ["Unit"], "zst", seen=False), "arru": T("[Unit; 3]", None, ["[Unit; 3]"], "zst", seen=False),
    "mu": T("std::mem::MaybeUninit<u32>", None, [f"std::mem::MaybeUninit::new({i}u32)" for i in range(3)], "blob", eq="unsafe {{ {e}.assume_init_ref() == {v}.assume_init_ref() }}", seen=False),
    "cell": T("std::cell::Cell<u16>", None, [f"std::cell::Cell::new({i})" for i in (0, 1, 65535)], "blobn", seen=False),
    "atomic": T("AtomicU32", None, [f"AtomicU32::new({i})" for i in range(3)], "blobn", eq="{e}.load(Ordering::SeqCst) == {v}.load(Ordering::SeqCst)", seen=False),
    "box": T("Box<u32>", None, [f"Box::new({i})" for i in range(3)], "blobc", seen=False, uni=False), "rc": T("std::rc::Rc<u8>", None, [f"std::rc::Rc::new({i})" for i in range(3)], "blobc", seen=False, uni=False),
    "gen": T("Gen<u16>", None, [f"Gen {{ t: {i} }}" for i in (0, 5, 65535)], "blob", eq="{e}.t == {v}.t", seen=False), "bool3": T("[Option<u128>; 2]", None, ["[None; 2]", "[Some(0), None]", "[None, Some(!0)]"], "blob", seen=False),
    "rfn": T("fn(i32) -> i32", None, ["ra", "rb", "rc"], "blob", eq="*{e} as *const () as usize == {v} as *const () as usize", seen=False, uni=False),
}
HEAD = E06.HEAD + '''
static SL: [u16; 3] = [1, 2, 3];
pub fn refs(x: i32) -> &'static u32 { &REFS[x as usize] }
extern "C" fn fa(x: i32) -> i32 { x } extern "C" fn fb(x: i32) -> i32 { x + 1 } extern "C" fn fc(x: i32) -> i32 { x + 2 }
fn ra(x: i32) -> i32 { x } fn rb(x: i32) -> i32 { x + 1 } fn rc(x: i32) -> i32 { x + 2 }
pub fn getfn(x: i32) -> extern "C" fn(i32) -> i32 { [fa, fb, fc][x as usize] }
#[derive(Clone, Copy, PartialEq)] pub struct Nest { pub a: u8, pub b: u32, c: u16 }
#[derive(Clone, Copy, PartialEq)] #[repr(C)] pub struct NestC(pub i8, pub i64);
#[derive(Clone, Copy, PartialEq)] pub enum Eo { A, B(u16) }
#[derive(Clone, Copy, PartialEq)] #[repr(C)] pub enum EnC { A, B(u64) }
#[derive(Clone, Copy, PartialEq)] #[repr(align(32))] pub struct Al32 { pub a: u8 }
#[derive(Clone, Copy)] pub union Un { pub a: u16, pub b: [u8; 2] }
#[derive(Clone, Copy, PartialEq)] pub struct Gen<A> { t: A }
#[derive(Clone, Copy, PartialEq)] pub struct Unit;
'''
NAMES = ["class", "r#match", "int", "meth", "operator", "tag", "value", "r#type", "template", "__x", "size", "union", "and"]
CCNAME = {"class": "class_", "r#match": "match", "int": "int_", "meth": "meth_", "operator": "operator_", "r#type": "type", "template": "template_", "union": "union_", "and": "and_"}


# alignments of the types that are classes in C++
ALIGN = dict(char=4, str=8, slice=8, arrc=4, tup=4, opt=4, optb=1, res=8, dur=8, ord=1, nest=4, nestc=8, enum=2, enumc=8, union=2)


class Field:
    def __init__(self, t, name, ccname, pub):
        self.t, self.name, self.cc, self.pub = t, name, ccname, pub
        self.seen = pub and t.seen


class Shape:
    def __init__(self, n, union, rep, fields, tuple_, copy, clone, dflt, packed, align):
        self.n, self.union, self.rep, self.fs, self.tuple, self.copy, self.clone, self.dflt, self.packed, self.align = n, union, rep, fields, tuple_, copy, clone, dflt, packed, align
        self.meth = any(f.name == "meth" for f in fields)
        for f in fields:  # C++ does not pack fields of class type
            f.seen = f.seen and not (packed and ALIGN.get(f.t.key, 0) > packed)

    def abstract(self, hide=()):
        return dict(union=self.union, fields=[dict(cls=f.t.cls, nv=f.t.nv, seen=f.seen, own=f.t.own) for f in self.fs], dflt=self.dflt, clone=self.clone, copy=self.copy, refs=not self.packed, new=self.new())

    def new(self):
        """C++ gets a constructor for tuple structs whose fields it sees and can move by Copy or Default"""
        return self.tuple and all(f.seen and (f.t.cls in ("prim", "copy", "dflt", "both") or f.t.rs.startswith("Option<")) for f in self.fs)

    def e(self, f):
        return self.fs[f].name if not self.tuple else str(f)

    def rust(self):
        n, S = self.n, f"S{self.n}"
        der = ["Clone", "Copy"] if self.copy else ["Clone"] if self.clone else []
        o = (f"#[derive({', '.join(der)})] " if der else "") + (f"#[repr({self.rep})] " if self.rep else "")
        if self.tuple:
            o += f"pub struct {S}(" + ", ".join(("pub " if f.pub else "") + f.t.rs for f in self.fs) + ");\n"
        else:
            o += f"pub {'union' if self.union else 'struct'} {S} {{ " + ", ".join(("pub " if f.pub else "") + f"{f.name}: {f.t.rs}" for f in self.fs) + " }\n"
        if self.meth:
            o += f"impl {S} {{ pub fn meth(&self) -> i32 {{ {n} }} }}\n"
        if self.dflt:
            o += f"impl Default for {S} {{ fn default() -> {S} {{ mk{n}([0; {len(self.fs)}]) }} }}\n"
        arms = lambda fmt: " ".join(f"{k} => {fmt(k, f)}," for k, f in enumerate(self.fs)) + " _ => panic!()"
        k = len(self.fs)
        if self.union:
            o += f"fn mk{n}(v: [i32; {k}]) -> {S} {{ " + " ".join(f"if v[{i}] >= 0 {{ return {S} {{ {self.e(i)}: mk_t{f.t.n}(v[{i}]) }}; }}" for i, f in enumerate(self.fs)) + " panic!() }\n"
        else:
            o += f"fn mk{n}(v: [i32; {k}]) -> {S} {{ {S} {{ " + ", ".join(f"{self.e(i)}: mk_t{f.t.n}(v[{i}])" for i, f in enumerate(self.fs)) + " } }\n"
        o += f"pub fn give{n}(" + ", ".join(f"a{i}: i32" for i in range(k)) + f") -> {S} {{ mk{n}([" + ", ".join(f"a{i}" for i in range(k)) + "]) }\n"
        # Rust sees the objects as elements of an array
        look = lambda i, f: f"{{ let t = s.{self.e(i)}; idx_t{f.t.n}(&t) }}" if self.packed else f"idx_t{f.t.n}(&s.{self.e(i)})"
        o += f"pub fn see{n}(p: *const {S}, i: usize, f: i32) -> i32 {{ unsafe {{ let s = &*p.add(i); match f {{ {arms(look)} }} }} }}\n"
        o += f"pub fn set{n}(s: &mut {S}, f: i32, x: i32) {{ unsafe {{ match f {{ {arms(lambda i, f: f'{{ s.{self.e(i)} = mk_t{f.t.n}(x); }}')} }} }} }}\n"
        o += f"pub fn swap{n}(a: &mut {S}, b: &mut {S}) {{ std::mem::swap(a, b) }}\npub fn id{n}(s: {S}) -> {S} {{ s }}\n"
        o += f"pub fn size{n}() -> usize {{ std::mem::size_of::<{S}>() }}\npub fn al{n}() -> usize {{ std::mem::align_of::<{S}>() }}\n"
        o += f"pub fn off{n}(f: i32) -> usize {{ match f {{ {arms(lambda i, f: f'std::mem::offset_of!({S}, {self.e(i)})')} }} }}\n"
        o += f"pub fn fsize{n}(f: i32) -> usize {{ match f {{ {arms(lambda i, f: f'std::mem::size_of::<{f.t.rs}>()')} }} }}\n"
        o += f"pub fn fal{n}(f: i32) -> usize {{ match f {{ {arms(lambda i, f: f'std::mem::align_of::<{f.t.rs}>()')} }} }}\n"
        for i, f in enumerate(self.fs):
            if f.seen and not self.packed:
                o += f"pub fn at{n}_{i}(s: &mut {S}) -> &mut {f.t.rs} {{ unsafe {{ &mut s.{self.e(i)} }} }}\n"
        return o

    def movable(self):
        cs = {f.t.cls for f in self.fs}
        return bool(self.copy or not cs & {"dflt", "both", "clone", "fixed", "blobc"} or self.dflt or self.clone)

    def cxx(self):
        n = self.n
        path = [f.cc + (".value" if self.union and "C" not in self.rep else "") for f in self.fs]
        o = f"struct K{n} {{ using S = M::S{n}; static constexpr int nf = {len(self.fs)}; static constexpr bool uni = {int(self.union)};\n"
        for f in ("see", "set", "swap", "size", "al", "off", "fsize", "fal"):
            o += f"  static decltype(auto) {f}(auto&&... a) {{ return M::{f}{n}(std::forward<decltype(a)>(a)...); }}\n"
        o += f"  static S give(const int* a) {{ return M::give{n}(" + ", ".join(f"a[{i}]" for i in range(len(self.fs))) + "); }\n"
        if self.tuple and all(f.t.seen for f in self.fs):
            o += "  static constexpr bool news = " + ("true" if self.new() else "false") + f"; static void make(void* p, const int* a) {{ make_<S>(p, a); }} template <class S> static constexpr bool can = std::is_constructible_v<S" + "".join(f", X{f.t.n}::T" for f in self.fs) + ">;\n"
            o += f"  template <class S> static void make_(void* p, const int* a) {{ if constexpr (can<S>) new (p) S(" + ", ".join(f"X{f.t.n}::make(a[{i}])" for i, f in enumerate(self.fs)) + "); else abort(); }\n"
        # what is private stays private
        o += "  template <class S> static constexpr bool hidden = true" + "".join(f" && !requires (S& o) {{ o.{f.cc}; }}" for f in self.fs if not f.seen) + ";\n"
        if self.movable():
            o += f"  static S id(S&& s) {{ return M::id{n}(std::move(s)); }}\n"
        sw = lambda args, fmt, dead: f"{args} {{ switch (f) {{ " + " ".join(f"case {i}: {{ {fmt(i, f)} }}" for i, f in enumerate(self.fs) if f.seen) + f" }} {dead} }}\n"
        o += sw("  static int look(const S& o, int f)", lambda i, f: f"return X{f.t.n}::idx(o.{path[i]});" if not self.packed else f"auto t = o.{path[i]}; return X{f.t.n}::idx(t);", "return -3;")
        o += sw("  static const void* where(const S& o, int f)", lambda i, f: f"return (const void*)&o.{path[i]};", "return nullptr;")
        o += sw("  static int csize(int f)", lambda i, f: f"return sizeof(S::{f.cc});" if not path[i].endswith(".value") else f"return sizeof(std::declval<S&>().{path[i]});", "return -1;")
        if self.packed:
            # a field of a packed object is written as a whole, never through a reference
            o += sw("  static int write(S& o, int f, int x)", lambda i, f: f"auto t = X{f.t.n}::make(x); o.{path[i]} = t; return x;", "return -99;")
            o += sw("  static void fcopy(S& o, const S& p, int f)", lambda i, f: f"o.{path[i]} = p.{path[i]}; return;", "abort();")
            o += sw("  static void fmove(S& o, S& p, int f)", lambda i, f: f"o.{path[i]} = p.{path[i]}; return;", "abort();")
        else:
            o += sw("  static int write(S& o, int f, int x)", lambda i, f: f"return put<X{f.t.n}>(o.{path[i]}, x);", "return -99;")
            o += sw("  static void fcopy(S& o, const S& p, int f)", lambda i, f: f"o.{path[i]} = p.{path[i]}; return;" if f.t.cls in ("prim", "copy", "both", "clone") else "", "abort();")
            o += sw("  static void fmove(S& o, S& p, int f)", lambda i, f: f"o.{path[i]} = std::move(p.{path[i]}); return;" if f.t.cls != "fixed" else "", "abort();")
            o += sw("  static void viac(S& o, int f, int x)", lambda i, f: f"M::put_t{f.t.n}(o.{path[i]}, x); return;", "abort();")
            o += sw("  static int viar(S& o, int f, int x)", lambda i, f: f"auto& r = M::at{n}_{i}(&o); if ((void*)&r != (void*)&o.{path[i]}) return -98; return put<X{f.t.n}>(r, x);", "return -99;")
        for i, f in enumerate(self.fs):
            if f.seen and f.t.cc and not path[i].endswith(".value"):
                o += f"  static_assert(std::is_same_v<decltype(S::{f.cc}), X{f.t.n}::T>);\n"
        return o + "};\n"


def type_rust(t):
    n, R = t.n, t.rs
    return (f"pub fn mk_t{n}(x: i32) -> {R} {{ match x {{ " + " ".join(f"{i} => {v}," for i, v in enumerate(t.vals)) + " _ => panic!() } }\n" +
            f"pub fn idx_t{n}(p: &{R}) -> i32 {{ " + " ".join(f"if {t.eq.format(e='p', v='(' + v + ')' if v != '()' else '()')} {{ return {i}; }}" for i, v in enumerate(t.vals)) + " 5 }\n" +
            (f"pub fn put_t{n}(p: &mut {R}, x: i32) {{ *p = mk_t{n}(x); }}\n" if t.seen else ""))


def type_cxx(t):
    if not t.seen:
        return ""
    n, cc = t.n, t.cc
    o = f"struct X{n} {{ using T = " + (cc or f"std::remove_reference_t<Arg<decltype(&M::put_t{n})>>") + ";"
    if t.cvals:
        o += " static T make(int x) { " + " ".join(f"if (x == {i}) return {v};" for i, v in enumerate(t.cvals)) + " abort(); }"
    else:
        o += f" static T make(int x) {{ return T(M::mk_t{n}(x)); }}"
    if t.cidx:
        o += f" static int idx(const T& v) {{ return {t.cidx}; }}"
    elif t.cvals:
        o += " static int idx(const T& v) { " + " ".join(f"if (v == {x}) return {i};" for i, x in enumerate(t.cvals)) + " return 5; }"
    else:
        o += f" static int idx(const T& v) {{ return M::idx_t{n}(v); }}"
    return o + " };\n"


CXX = r'''
#include <algorithm>
#include <array>
#include <cfloat>
#include <cstring>
#include <iostream>
#include <memory>
#include <span>
#include <sstream>
#include <tuple>
#include "MOD.h"
namespace M = ::MOD;
static const uint16_t sl[] = {1, 2, 3};
template <class F> struct Arg_;
template <class A, class B> struct Arg_<void (*)(A, B)> { using type = A; };
template <class F> using Arg = typename Arg_<F>::type;
template <class X> int put(auto& field, int x) {
  using T = typename X::T;
  if constexpr (std::is_move_assignable_v<T>) { T t = X::make(x); field = std::move(t); return X::idx(t); } else return -99;
}
TYPES
KINDS
template <class K> struct Run {
  using S = typename K::S;
  alignas(128) unsigned char mem[2 * sizeof(S) + 64];
  bool up[2] = {false, false};
  int fill = 0;
  S* at(int i) { return (S*)mem + (i - 1); }
  S& o(int i) { return *at(i); }
  void* fresh(int i) { memset(at(i), (const int[]){0, 255, 0xA5, 1, 2}[fill++ % 5], sizeof(S)); up[i - 1] = true; return at(i); }
  void kill(int i) { if (up[i - 1]) o(i).~S(); up[i - 1] = false; }
  int step(const std::string& op, int i, int j, int f, int x, const int* a) {
    if (op == "give") { new (fresh(i)) S(K::give(a)); return 0; }
    if constexpr (requires { K::make(nullptr, a); }) if (op == "new") { K::make(fresh(i), a); return 0; }
    if (op == "kill") { kill(i); return 0; }
    if (op == "setr") { K::set(o(i), f, x); return 0; }
    if (op == "setc") return K::write(o(i), f, x);
    if constexpr (requires { K::viac(o(i), f, x); }) {
      if (op == "viac") { K::viac(o(i), f, x); return 0; }
      if (op == "viar") return K::viar(o(i), f, x);
    }
    if (op == "fcopy") { K::fcopy(o(i), o(j), f); return 0; }
    if (op == "fmove") { K::fmove(o(i), o(j), f); return 0; }
    if (op == "copy") { if constexpr (std::is_copy_constructible_v<S>) { new (fresh(i)) S(std::as_const(o(j))); return 0; } }
    if (op == "copya") { if constexpr (std::is_copy_assignable_v<S>) { o(i) = std::as_const(o(j)); return 0; } }
    if constexpr (std::is_move_constructible_v<S> && std::is_move_assignable_v<S>) {
      if (op == "move") { new (fresh(i)) S(std::move(o(j))); return 0; }
      if (op == "movea") { o(i) = std::move(o(j)); return 0; }
      if (op == "swapc") { std::swap(o(i), o(j)); return 0; }
      if constexpr (requires { K::id(std::move(o(j))); }) if (op == "id") { new (fresh(i)) S(K::id(std::move(o(j)))); return 0; }
    }
    if (op == "dflt") { if constexpr (std::is_default_constructible_v<S>) { new (fresh(i)) S(); return 0; } }
    if (op == "swapr") { K::swap(o(i), o(j)); return 0; }
    return -99;
  }
  void all(std::istringstream& in, std::ostringstream& out) {
    std::string op;
    int i, j, f, x, a[16], base[3];
    memset(mem, 0x77, sizeof mem);
    for (int k = 0; k < 3; ++k) base[k] = M::live(k);
    while (in >> op >> i >> j >> f >> x) {
      if (op == "give" || op == "new") for (int k = 0; k < K::nf; ++k) in >> a[k];
      out << step(op, i, j, f - 1, x, a) << "|";
      for (int k = 1; k <= 2; ++k) {
        if (!up[k - 1]) { out << "- "; continue; }
        for (int g = 0; g < K::nf; ++g) {
          // in a union only what is active is looked at: the driver is told which field that is
          if (K::uni) { in >> a[0]; if (a[0] < 0) { out << "."; continue; } }
          int r = K::see(at(1), k - 1, g), c = K::look(o(k), g);
          out << r;
          if (c != -3 && c != r) out << "!=" << c;
        }
        out << " ";
      }
      int n = 0;
      for (int k = 0; k < 3; ++k) n += M::live(k) - base[k];
      out << n << ";";
    }
    kill(1); kill(2);
    for (int k = 0; k < 3; ++k) if (M::live(k) != base[k]) out << "LEFT" << k;
    for (size_t k = 2 * sizeof(S); k < sizeof mem; ++k) if (mem[k] != 0x77) out << "OUTSIDE";
  }
  static void table(std::ostringstream& out) {
    out << std::is_copy_constructible_v<S> << std::is_copy_assignable_v<S> << std::is_move_constructible_v<S> << std::is_move_assignable_v<S> << std::is_default_constructible_v<S>;
    if constexpr (requires { K::news; }) out << (K::news == K::template can<S>); else out << 1;
    out << K::template hidden<S>;
    out << " " << K::size() << " " << K::al() << " " << sizeof(S) << " " << alignof(S);
    alignas(128) static unsigned char m[sizeof(S)];
    const S& o = *(const S*)m;
    for (int g = 0; g < K::nf; ++g) {
      const void* p = K::where(o, g);
      out << " " << K::fsize(g) << " " << K::fal(g) << " " << K::off(g) << " " << (p ? (const unsigned char*)p - m : -1) << " " << K::csize(g);
    }
  }
};
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    std::istringstream in(l);
    std::ostringstream out;
    int k;
    in >> k;
    if (k < 0) switch (-k) { TABLES }
    else switch (k) { RUNS }
    std::cout << "=> " << out.str() << std::endl;
  }
}
'''


def shapes(rng, k, size):
    """World k: payload types, field types and shapes, numbered."""
    P, TS, Sh = [], [], []
    def use(t):
        if t.n is None or t not in TS:
            t.n = len(TS) + 1
            TS.append(t)
        return t
    fresh = lambda t: T(t.rs, t.cc, t.vals, t.cls, t.cvals, t.cidx, t.eq, t.own, t.seen, t.uni)
    pool = {k_: fresh(t) for k_, t in {**SCALARS, **MORE, **HIDDEN}.items()}
    for k_, t in pool.items():
        t.key = k_
    def payload(cls):
        p = Payload(rng, len(P) + 1, cls)
        P.append(p)
        own = int(p.cls in ("dflt", "both", "clone", "fixed"))
        v = [f"{p.rs}::make({x})" for x in range(p.nv)]
        eq = f"{p.rs}::idx({{e}}) == {p.rs}::idx(&{{v}})"
        out = [T(p.rs, f"M::{p.rs}", v, cls, None, None, eq, [own] * p.nv, True, uni=cls == "copy")]
        if rng.random() < .5:
            out.append(T(f"[{p.rs}; 2]", f"std::array<M::{p.rs}, 2>", [f"[{a}, {a}]" for a in v], cls, None, f"M::{p.rs}::idx(v[0]) == M::{p.rs}::idx(v[1]) ? M::{p.rs}::idx(v[0]) : 5",
                         f"{p.rs}::idx(&{{e}}[0]) == {p.rs}::idx(&{{v}}[0]) && {p.rs}::idx(&{{e}}[1]) == {p.rs}::idx(&{{v}}[1])", [2 * own] * p.nv, uni=cls == "copy"))
        if cls != "fixed" and rng.random() < .5:
            oc = {"copy": "prim", "bits": "bits", "dflt": "dflt", "both": "both", "clone": "both"}[cls]
            out.append(T(f"Option<{p.rs}>", f"rs_std::Option<M::{p.rs}>", ["None"] + [f"Some({a})" for a in v[:2]], oc, None, f"!v.has_value() ? 0 : 1 + M::{p.rs}::idx(*v)",
                         f"match ({{e}}, &{{v}}) {{{{ (None, None) => true, (Some(a), Some(b)) => {p.rs}::idx(a) == {p.rs}::idx(b), _ => false }}}}", [0] + [own] * len(v[:2]), uni=False))
        return out
    structs = [t for c in ("copy", "bits", "dflt", "both", "clone", "fixed") for _ in range(2) for t in payload(c)]
    easy = list(SCALARS)
    queue = [a for a in list(MORE) + list(HIDDEN)]
    rng.shuffle(queue)
    for n in range(1, size + 1):
        kind = rng.choice(["struct"] * 5 + ["packed"] * 2 + ["union"] * 2 + ["tuple"] * 2)
        k_ = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
        def pick():
            if kind == "tuple":
                return pool[rng.choice(easy if rng.random() < .6 else list(MORE))] if rng.random() < .6 else rng.choice([t for t in structs if t.cls in ("copy", "prim", "dflt", "both")])
            if kind == "struct" and rng.random() < .35:
                return rng.choice(structs)
            if queue and rng.random() < .7:
                return pool[queue.pop()]
            return pool[rng.choice(easy if rng.random() < .5 else list(MORE) + list(HIDDEN))]
        ts = []
        while len(ts) < k_:
            t = pick()
            if kind == "packed" and t.key == "al32":
                continue
            if kind in ("packed", "union") and (not t.uni or t.cls not in ("prim", "copy", "blob", "zst")):
                continue
            if kind == "union" and t.cls == "zst":
                continue
            ts.append(t)
        if n == 1:  # padding that packed(N) leaves
            kind, ts = "packed", [pool[x] for x in rng.sample(["u8", "u16", "u32", "u64", "enum", "arr32", "bool"], 5)]
        if n == 2:  # a lot of padding, and fields that C++ does not see
            kind, ts = "struct", [pool[rng.choice(["u8", "bool"])], pool["al32"], pool[rng.choice(list(HIDDEN))], pool["u16"]]
        if kind == "tuple" and len(ts) > 1 and rng.random() < .5:
            ts = [ts[0]] * 2 + ts[2:]
        if all(t.cls == "zst" for t in ts):
            ts.append(pool["u16"])
        tuple_ = kind == "tuple" or kind != "union" and rng.random() < .3
        names = rng.sample(NAMES + [f"S{n}"], min(len(ts), 3)) + [f"f{i}" for i in range(9)]
        if rng.random() < .6:
            names = [f"f{i}" for i in range(9)]
        nm = names[:len(ts)]
        fs, all_ = [], kind == "tuple"
        for i, t in enumerate(ts):
            use(t)
            cc = f"__field{i}" if tuple_ else f"S{n}_" if nm[i] == f"S{n}" else CCNAME.get(nm[i], nm[i])
            fs.append(Field(t, nm[i], cc, rng.random() < .75 or all_))
        cls = {t.cls for t in ts}
        copyable, clonable = cls <= {"prim", "copy", "blob", "zst"}, cls <= {"prim", "copy", "blob", "zst", "both", "clone", "blobc"}
        copy = copyable and rng.random() < .6
        clone = copy or (clonable and kind != "union" and (kind != "packed") and rng.random() < .5)
        dflt = kind != "union" and rng.random() < .4
        packed = align = 0
        if kind == "packed":
            packed = rng.choice([1, 1, 2, 4, 8])
            if n == 1:
                packed = rng.choice([2, 4, 8])
            rep = ("C, " if n == 1 else rng.choice(["", "C, "])) + ("packed" if packed == 1 else f"packed({packed})")
        else:
            rep = rng.choice(["", "", "C", "C"]) if n != 2 else "C"
            if rng.random() < .25:
                align = rng.choice([1, 2, 8, 16, 64])
                rep += (", " if rep else "") + f"align({align})"
            elif kind == "struct" and sum(t.cls != "zst" for t in ts) == 1 and rng.random() < .5 and not any(t.rs == "[u32; 0]" for t in ts):
                rep = "transparent"
        Sh.append(Shape(n, kind == "union", rep, fs, tuple_, copy, clone, dflt, packed, align))
    return P, TS, Sh


def world(c, k):
    return shapes(random.Random(c.seed * 1000 + k), k, c.pick(14, 20))


def sources(P, TS, Sh):
    rs = HEAD + "".join(p.decl() for p in P) + "".join(map(type_rust, TS)) + "".join(s.rust() for s in Sh)
    cc = CXX.replace("TYPES", "".join(map(type_cxx, TS))).replace("KINDS", "".join(s.cxx() for s in Sh))
    cc = cc.replace("TABLES", " ".join(f"case {s.n}: Run<K{s.n}>::table(out); break;" for s in Sh)).replace("RUNS", " ".join(f"case {s.n}: Run<K{s.n}>().all(in, out); break;" for s in Sh))
    return rs, cc


def expected(s, h):
    o = ""
    for e in h:
        o += f"{e['res']}|" + "".join("- " if not a else "".join("." if x < 0 else str(x) for x in a) + " " for a in e["obj"]) + f"{e['live']};"
    return o


def line(s, h):
    o = str(s.n)
    for e in h:
        o += f" {e['op']} {e['i']} {e['j']} {e['f']} {e['x']}"
        if e["op"] in ("give", "new"):
            o += "".join(f" {x}" for x in e["obj"][e["i"] - 1])
        if s.union:
            o += "".join(f" {x}" for a in e["obj"] for x in a)
    return o


def build(c, k):
    P, TS, Sh = world(c, k)
    rs, cc = sources(P, TS, Sh)
    cr = Crate(f"lay{k}", rs, rustc_args=support_externs())
    try:
        return P, TS, Sh, cr, cr.build(cc.replace("MOD", cr.name), ("-O0", "-fsanitize=address", "-Wno-address-of-packed-member"), ("-fsanitize=address",), SUPPORT_SRC)
    except GeneratedCodeError as e:
        return P, TS, Sh, cr, e


def describe(s):
    return dict(kind="union" if s.union else "tuple struct" if s.tuple else "struct", repr=s.rep, fields=[f"{'pub ' * f.pub}{f.name}: {f.t.rs}{' (' + f.t.cls + ')' if f.t.rs.startswith('P') else ''}" for f in s.fs],
                derives="Copy" * s.copy + "Clone" * (s.clone and not s.copy) + " Default" * s.dflt)


def run(c):
    generator(); stdlib()
    n = c.pick(5, 20)
    with ThreadPoolExecutor(6) as ex:
        fut = [ex.submit(build, c, k) for k in range(n)]
        abs_, where = [], {}
        for k in range(n):
            for s in world(c, k)[2]:
                a = s.abstract()
                if a not in abs_:
                    abs_.append(a)
                where[k, s.n] = abs_.index(a)
        def states(a):
            p = 1
            for f in a["fields"]:
                p = p + f["nv"] if a["union"] and p > 1 else p * f["nv"]
            return p
        inv = dict(invariants=["Typed", "OneActive"], properties=["Named", "OneField", "HiddenKept", "NoForgery"], view="View")
        jobs = []
        small = [i for i, a in enumerate(abs_) if states(a) <= c.pick(6, 12)]
        for q in range(4):
            ids = small[q::4]
            if ids:
                jobs.append((ids, "every step in every state", dict(emit="Emit"), dict(MaxSteps=20, Targets={1}, Sample=0)))
            ids = list(range(len(abs_)))[q::4]
            jobs.append((ids, "random", dict(emit="EmitLast", simulate=c.pick(100, 1500), depth=31, seed=c.seed + q, workers=4), dict(MaxSteps=30, Targets={1, 2}, Sample=2)))
        fs = [(ids, what, ex.submit(tlc, "Layout", dict(Shapes=[abs_[i] for i in ids], Objects=2, **k), **kw, **inv)) for ids, what, kw, k in jobs]
        by = {i: [] for i in range(len(abs_))}
        for ids, what, f in fs:
            r = f.result()
            c.add_tlc(r, f"{len(ids)} shapes, {what}")
            for h in r.histories:
                by[ids[h[0]["shape"] - 1]].append(h)
        worlds = [f.result() for f in fut]
    rec, reckey = [], []
    for k, (P, TS, Sh, cr, drv) in enumerate(worlds):
        try:
            if isinstance(drv, GeneratedCodeError):
                c.violation(f"the structs of a crate cannot be used: {drv}"[:1500] + f" [world {k}]", {"error": str(drv), "shapes": [describe(s) for s in Sh]})
                continue
            lines, hs = [], []
            for s in Sh:
                hh = by[where[k, s.n]]
                lines.append(f"-{s.n}")
                hs.append((s, None, None))
                for h in hh:
                    lines.append(line(s, h[1:]))
                    hs.append((s, h, expected(s, h[1:])))
            bad = {}
            for (s, h, want), l, got in zip(hs, lines, run_sharded(drv, lines)):
                if h is None:
                    q = got.split()
                    v = list(map(int, q[1:])) if re.fullmatch(r"\d{7}( -?\d+)+", got) else None
                    if not v:
                        c.violation(f"S{s.n}: looking at its layout: {got}", describe(s))
                        continue
                    t = by[where[k, s.n]]
                    if t:
                        w = "".join(str(int(t[0][0][x])) for x in ("copy", "copy", "move", "move", "dflt")) + "11"
                        if q[0] != w:
                            c.violation(f"{describe(s)}: copy/move/default, tuple constructor, hidden fields: {q[0]}, expected {w}", describe(s))
                    rec.append(dict(union=s.union, c="C" in s.rep, packed=s.packed, align=s.align, size=v[0], al=v[1], csize=v[2], cal=v[3],
                                    fields=[dict(size=v[4 + 5 * i], align=v[5 + 5 * i], rs=v[6 + 5 * i], cc=v[7 + 5 * i], csize=v[8 + 5 * i]) for i in range(len(s.fs))]))
                    reckey.append(s)
                    for i, f in enumerate(s.fs):
                        if f.seen and v[7 + 5 * i] == -1:
                            raise ToolError("field not looked at")
                    continue
                c.traces += 1
                if got != want and bad.setdefault(s.n, 0) < 2:
                    bad[s.n] += 1
                    ws, os_ = want.split(";"), got.split(";")
                    i = next((i for i, (p, q) in enumerate(zip(ws, os_)) if p != q), len(os_) - 1)
                    e = h[i + 1] if i + 1 < len(h) else {"op": "end"}
                    c.violation(f"{describe(s)}: {e['op']} {e.get('i')} {e.get('j')} field {e.get('f')} value {e.get('x')}: expected {ws[i]}, observed {os_[i]}", {**describe(s), "history": l, "expected": want, "observed": got})
        finally:
            cr.clean()
    # the layouts that both compilers report, against the rules
    left = list(range(len(rec)))
    if left:
        r = tlc("LayoutOf", dict(Recorded=rec))
        c.add_tlc(r, "the recorded layouts")
    for inv_ in ("LikeC", "Fits", "Agree"):
        try:
            tlc("LayoutOf", dict(Recorded=rec), invariants=[inv_])
        except ToolError as e:
            m = re.search(r"k = (\d+)", str(e))
            if not m:
                raise
            i = int(m[1]) - 1
            c.violation(f"{describe(reckey[i])}: layout violates {inv_}: {rec[i]}"[:1500], {**describe(reckey[i]), "recorded": rec[i]})
    c.sample([describe(s) for s in worlds[0][2]])
    c.extra["shapes"] = len(where)
    c.extra["field types"] = len({f.t.rs for k in range(n) for s in worlds[k][2] for f in s.fs})
