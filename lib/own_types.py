"""Synthesises the bound types of the ownership checks, and their C++ driver."""

PRELUDE = r'''
#![allow(dead_code, unused, static_mut_refs)]
pub mod trace {
    use std::cell::RefCell;
    thread_local!(static EV: RefCell<Vec<[i32; 4]>> = const { RefCell::new(vec![]) });
    thread_local!(static NEXT: RefCell<i32> = const { RefCell::new(0) });
    pub(crate) fn fresh() -> i32 { NEXT.with(|n| { *n.borrow_mut() += 1; *n.borrow() }) }
    pub(crate) fn ev(a: i32, b: i32, c: i32, d: i32) { EV.with(|e| e.borrow_mut().push([a, b, c, d])) }
    pub fn len() -> i32 { EV.with(|e| e.borrow().len() as i32) }
    pub fn get(i: i32, j: i32) -> i32 { EV.with(|e| e.borrow()[i as usize][j as usize]) }
    pub fn clear() { EV.with(|e| e.borrow_mut().clear()) }
    pub fn reset() { clear(); NEXT.with(|n| *n.borrow_mut() = 0) }
}
use trace::{ev, fresh};
'''
# event codes: 1 new, 2 dflt, 3 clone, 4 from, 5 use, 6 drop


def leaf(name, tr, fields, build, idexpr, setexpr, attrs="", vis="pub ", kw="struct"):
    """A type that carries its id itself and logs its trait implementations."""
    s = f"{attrs}\n"
    if tr["copy"]:
        s += "#[derive(Clone, Copy)]\n"
    s += f"{vis}{kw} {name}{fields}\n"
    s += f"impl {name} {{ fn with(id: i32) -> Self {{ {build} }}\n fn idv(&self) -> i32 {{ {idexpr} }}\n fn set(&mut self, id: i32) {{ {setexpr} }} }}\n"
    if tr["clone"] and not tr["copy"]:
        s += f'''impl Clone for {name} {{
    fn clone(&self) -> Self {{ let n = fresh(); ev(3, self.idv(), n, 0); Self::with(n) }}
    fn clone_from(&mut self, s: &Self) {{ let n = fresh(); ev(4, self.idv(), s.idv(), n); self.set(n) }}
}}\n'''
    if tr["dflt"]:
        s += f"impl Default for {name} {{ fn default() -> Self {{ let n = fresh(); ev(2, n, 0, 0); Self::with(n) }} }}\n"
    if tr["drop"]:
        s += f"impl Drop for {name} {{ fn drop(&mut self) {{ ev(6, self.idv(), 0, 0) }} }}\n"
    return s


def type_src(name, tr, shape):
    """The Rust source of type `name` with traits tr, or None if the shape cannot have them."""
    P = "std::marker::PhantomPinned"
    if tr["pin"]:
        if shape == "plain":
            return leaf(name, tr, "{ a: u64, id: i32, b: u8, p: %s }" % P, "Self { a: 7, id, b: 3, p: %s }" % P, "assert!(self.a == 7 && self.b == 3); self.id", "self.id = id")
        if shape == "transparent":
            return leaf(name, tr, "(i32, %s);" % P, "Self(id, %s)" % P, "self.0", "self.0 = id", attrs="#[repr(transparent)]")
        if shape == "enum":
            return leaf(name, tr, "{ A(i32, %s), C }" % P, "Self::A(id, %s)" % P, "match self { Self::A(i, _) => *i, _ => panic!() }",
                        "match self { Self::A(i, _) => *i = id, _ => panic!() }", kw="enum")
        return None
    if shape == "plain":
        return leaf(name, tr, "{ a: u64, id: i32, b: u8 }", "Self { a: 7, id, b: 3 }", "assert!(self.a == 7 && self.b == 3); self.id", "self.id = id")
    if shape == "public":
        return leaf(name, tr, "{ pub pad: u8, pub id: i32 }", "Self { pad: 9, id }", "assert!(self.pad == 9); self.id", "self.id = id")
    if shape == "tuple":
        return leaf(name, tr, "(i32, pub u8);", "Self(id, 5)", "assert!(self.1 == 5); self.0", "self.0 = id")
    if shape == "transparent":
        return leaf(name, tr, "(i32);", "Self(id)", "self.0", "self.0 = id", attrs="#[repr(transparent)]")
    if shape == "reprc":
        return leaf(name, tr, "{ pub x: u8, id: i32, pub y: u16 }", "Self { x: 1, id, y: 2 }", "assert!(self.x == 1 && self.y == 2); self.id", "self.id = id", attrs="#[repr(C)]")
    if shape == "big":
        return leaf(name, tr, "{ id: i32, rest: [u64; 9] }", "Self { id, rest: [id as u64; 9] }", "assert!(self.rest == [self.id as u64; 9]); self.id", "self.id = id; self.rest = [id as u64; 9]")
    if shape == "aligned":
        return leaf(name, tr, "{ id: i32 }", "Self { id }", "self.id", "self.id = id", attrs="#[repr(align(32))]")
    if shape == "enum":
        return leaf(name, tr, "{ A(i32), B { id: i32, pad: u64 }, C }", "if id % 2 == 0 { Self::A(id) } else { Self::B { id, pad: 1 } }",
                    "match self { Self::A(i) => *i, Self::B { id, .. } => *id, _ => panic!() }", "match self { Self::A(i) => *i = id, Self::B { id: i, .. } => *i = id, _ => panic!() }", kw="enum")
    if shape == "boxed" and tr["drop"]:
        # heap memory: a double drop or use after drop is also a memory error
        return leaf(name, tr, "{ id: Box<i32> }", "Self { id: Box::new(id) }", "*self.id", "*self.id = id")
    d = "".join(f"#[derive({x})]\n" for x, on in (("Clone", tr["clone"]), ("Copy", tr["copy"]), ("Default", tr["dflt"])) if on)
    inner = leaf(f"{name}In", tr, "{ id: i32 }", "Self { id }", "self.id", "self.id = id", vis="")
    common = f"impl {name} {{ fn idv(&self) -> i32 {{ INNER.idv() }} fn with(id: i32) -> Self {{ BUILD }} }}\n"
    if shape == "glue":
        return inner + f"{d}pub struct {name} {{ pub flag: bool, inner: {name}In, tail: u16 }}\n" + \
            common.replace("INNER", "self.inner").replace("BUILD", f"Self {{ flag: true, inner: {name}In::with(id), tail: 1 }}")
    if shape == "gluetuple":
        return inner + f"{d}pub struct {name}(u8, {name}In);\n" + common.replace("INNER", "self.1").replace("BUILD", f"Self(1, {name}In::with(id))")
    if shape == "transglue":
        return inner + f"{d}#[repr(transparent)] pub struct {name}({name}In);\n" + common.replace("INNER", "self.0").replace("BUILD", f"Self({name}In::with(id))")
    if shape == "optglue":
        return inner + f"{d}pub struct {name} {{ inner: Option<{name}In> }}\n" .replace("#[derive(Default)]\n", "") + \
            (f"impl Default for {name} {{ fn default() -> Self {{ Self {{ inner: Some(Default::default()) }} }} }}\n" if tr["dflt"] else "") + \
            common.replace("INNER", "self.inner.as_ref().unwrap()").replace("BUILD", f"Self {{ inner: Some({name}In::with(id)) }}")
    if shape == "enumglue":
        dd = d.replace("#[derive(Default)]\n", "")
        df = f"impl Default for {name} {{ fn default() -> Self {{ Self::X(Default::default()) }} }}\n" if tr["dflt"] else ""
        return inner + f"{dd}pub enum {name} {{ X({name}In), Y }}\n" + df + \
            common.replace("INNER.idv()", "(match self { Self::X(i) => i.idv(), _ => panic!() })").replace("BUILD", f"Self::X({name}In::with(id))")
    return None


SHAPES = ["plain", "public", "tuple", "transparent", "reprc", "big", "aligned", "enum", "boxed", "glue", "gluetuple",
          "transglue", "optglue", "enumglue"]

API = r'''
impl NAME {
    pub fn make() -> NAME { let n = fresh(); ev(1, n, 0, 0); NAME::with(n) }
    pub fn id(&self) -> i32 { self.idv() }
    pub fn consume(self) -> i32 { ev(5, self.idv(), 0, 0); self.idv() }
    pub fn swap_with(&mut self, other: &mut NAME) { std::mem::swap(self, other) }
}
thread_local!(static VAULT_NAME: std::cell::RefCell<Vec<NAME>> = const { std::cell::RefCell::new(vec![]) });
pub fn give_NAME(x: NAME) { VAULT_NAME.with(|v| v.borrow_mut().push(x)) }
pub fn take_NAME() -> NAME { VAULT_NAME.with(|v| v.borrow_mut().pop().unwrap()) }
pub fn vault_len_NAME() -> i32 { VAULT_NAME.with(|v| v.borrow().len() as i32) }
pub fn vault_id_NAME(i: i32) -> i32 { VAULT_NAME.with(|v| v.borrow()[i as usize].idv()) }
pub fn vault_clear_NAME() { VAULT_NAME.with(|v| { let x = std::mem::take(&mut *v.borrow_mut()); drop(x) }) }
pub fn pair_NAME(a: NAME, b: NAME) -> (NAME, NAME) { (b, a) }
pub fn array_NAME(x: [NAME; 2]) -> [NAME; 2] { let [a, b] = x; [b, a] }
pub fn nest_NAME(x: (NAME, (i32, NAME))) -> ((NAME, i32), NAME) { let (a, (n, b)) = x; ((b, n + 1), a) }
pub fn opt_NAME(x: Option<NAME>) -> Option<NAME> { x }
pub struct W_NAME { pub tag: u8, pub f: NAME }
pub fn wrap_NAME(x: NAME) -> W_NAME { W_NAME { tag: 77, f: x } }
pub fn replace_NAME(dst: &mut NAME, src: NAME) -> NAME { std::mem::replace(dst, src) }
'''

DRIVER = r'''
#include "CRATE.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <array>
#include <optional>
#include <tuple>
#include <utility>
#include <new>
namespace N = CRATE;
template <class A> struct Traits;
static std::string out;
static int res = 0;
template <class T> struct Machine {
  static constexpr int K = 3;
  struct alignas(T) Buf { unsigned char b[sizeof(T)]; };
  Buf buf[K]; std::string st = "AAA"; bool bad = false;
  T& s(int k) { return *std::launder(reinterpret_cast<T*>(buf[k - 1].b)); }
  void* p(int k) { std::memset(buf[k - 1].b, 0xA5, sizeof(T)); return buf[k - 1].b; }
  using Tr = Traits<T>;
  void op(const std::string& o, int k, int j) {
    // each operation exists only if the C++ class offers it
    if (o == "make") { ::new (p(k)) T(T::make()); }
    else if (o == "default") { if constexpr (requires { T(); }) { ::new (p(k)) T(); } else bad = true; }
    else if (o == "copynew") { if constexpr (std::is_copy_constructible_v<T>) { ::new (p(k)) T(const_cast<const T&>(s(j))); } else bad = true; }
    else if (o == "movenew") { if constexpr (std::is_move_constructible_v<T>) { ::new (p(k)) T(std::move(s(j))); } else bad = true; }
    else if (o == "copyto") { if constexpr (std::is_copy_assignable_v<T>) { s(k) = const_cast<const T&>(s(j)); } else bad = true; }
    else if (o == "moveto") { if constexpr (std::is_move_assignable_v<T>) { s(k) = std::move(s(j)); } else bad = true; }
    else if (o == "destroy") { s(k).~T(); std::memset(buf[k - 1].b, 0x5A, sizeof(T)); }
    else if (o == "give") { if constexpr (requires { Tr::give(std::move(s(k))); }) { Tr::give(std::move(s(k))); } else bad = true; }
    else if (o == "givecopy") { if constexpr (requires { Tr::give(s(k)); }) { Tr::give(s(k)); } else bad = true; }
    else if (o == "take") { ::new (p(k)) T(Tr::take()); }
    else if (o == "consume") { if constexpr (requires { std::move(s(k)).consume(); }) { res = std::move(s(k)).consume(); } else bad = true; }
    else if (o == "rustswap") { s(k).swap_with(s(j)); }
    else if (o == "cxxswap") { if constexpr (std::is_move_constructible_v<T> && std::is_move_assignable_v<T>) { std::swap(s(k), s(j)); } else bad = true; }
    else if (o == "pair") { if constexpr (requires { Tr::pair(std::move(s(k)), std::move(s(j))); }) {
        auto r = Tr::pair(std::move(s(k)), std::move(s(j))); s(k) = std::move(std::get<0>(r)); s(j) = std::move(std::get<1>(r)); } else bad = true; }
    else if (o == "array") { if constexpr (requires(std::array<T, 2> a) { Tr::array(std::move(a)); }) {
        auto r = Tr::array(std::array<T, 2>{std::move(s(k)), std::move(s(j))}); s(k) = std::move(r[0]); s(j) = std::move(r[1]); } else bad = true; }
    else if (o == "nest") { if constexpr (requires { Tr::nest(std::move(s(k)), std::move(s(j))); }) {
        auto r = Tr::nest(std::move(s(k)), std::move(s(j))); if (std::get<1>(std::get<0>(r)) != 42) bad = true;
        s(k) = std::move(std::get<0>(std::get<0>(r))); s(j) = std::move(std::get<1>(r)); } else bad = true; }
    else if (o == "opt") { if constexpr (requires { Tr::opt(std::move(s(k))); }) { auto r = Tr::opt(std::move(s(k))); s(k) = std::move(r).value(); } else bad = true; }
    else if (o == "field") { if constexpr (requires { Tr::wrap(std::move(s(k))); }) { auto w = Tr::wrap(std::move(s(k))); if (w.tag != 77) bad = true; s(k) = std::move(w.f); } else bad = true; }
    else if (o == "mkarray") { Tr::mkarray(); }
    else if (o == "replace") { if constexpr (requires { Tr::replace(s(k), std::move(s(j))); }) { s(j) = Tr::replace(s(k), std::move(s(j))); } else bad = true; }
    else if (o == "end") { Tr::vault_clear(); }
    else std::abort();
  }
  void run(std::istream& in) {
    N::trace::reset();
    std::string o, stat; int k, j; bool first = true;
    out = "[";
    while (in >> o >> k >> j >> stat) {
      N::trace::clear(); res = 0;
      op(o, k, j);
      if (bad) { std::printf("=> UNAVAILABLE %s\n", o.c_str()); std::fflush(stdout); std::_Exit(0); }
      out += first ? "" : ","; first = false;
      out += "{\"op\":\"" + o + "\",\"k\":" + std::to_string(k) + ",\"j\":" + std::to_string(j) + ",\"res\":" + std::to_string(res) + ",\"ev\":[";
      static const char* names[] = {"", "new", "dflt", "clone", "from", "use", "drop"};
      static const int arity[] = {0, 1, 1, 2, 3, 1, 1};
      for (int i = 0; i < N::trace::len(); i++) {
        int c = N::trace::get(i, 0);
        out += (i ? ",[\"" : "[\"") + std::string(names[c]) + "\"";
        for (int a = 1; a <= arity[c]; a++) out += "," + std::to_string(N::trace::get(i, a));
        out += "]";
      }
      out += "],\"st\":[";
      for (int i = 0; i < K; i++) out += (i ? ",\"" : "\"") + std::string(1, stat[i]) + "\"";
      out += "],\"slot\":[";
      for (int i = 0; i < K; i++) out += (i ? "," : "") + std::to_string(stat[i] == 'V' ? s(i + 1).id() : 0);
      out += "],\"vault\":[";
      for (int i = 0; i < Tr::vault_len(); i++) out += (i ? "," : "") + std::to_string(Tr::vault_id(i));
      out += "]}";
    }
    out += "]";
    std::printf("=> %s\n", out.c_str());
    std::fflush(stdout);
  }
};
TRAITS
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); std::string ty; in >> ty;
    if (false) {}
    DISPATCH
    else std::abort();
  }
}
'''

TRAIT = r'''template <> struct Traits<N::NAME> {
  static void mkarray() { N::array_NAME(std::array<N::NAME, 2>{N::NAME::make(), N::NAME::make()}); }
  static N::NAME take() { return N::take_NAME(); }
  static int vault_len() { return N::vault_len_NAME(); }
  static int vault_id(int i) { return N::vault_id_NAME(i); }
  static void vault_clear() { N::vault_clear_NAME(); }
'''
# functions with by-value parameters exist only for movable types
TRAIT_MOVABLE = r'''
  static auto array(std::array<N::NAME, 2>&& x) { return N::array_NAME(std::move(x)); }
  template <class U> static auto give(U&& x) -> decltype(N::give_NAME(std::forward<U>(x))) { return N::give_NAME(std::forward<U>(x)); }
  template <class U> static auto pair(U&& x, U&& y) -> decltype(N::pair_NAME(std::forward<U>(x), std::forward<U>(y))) { return N::pair_NAME(std::forward<U>(x), std::forward<U>(y)); }
  template <class U> static auto replace(N::NAME& x, U&& y) -> decltype(N::replace_NAME(x, std::forward<U>(y))) { return N::replace_NAME(x, std::forward<U>(y)); }
  template <class U> static auto wrap(U&& x) -> decltype(N::wrap_NAME(std::forward<U>(x))) { return N::wrap_NAME(std::forward<U>(x)); }
  template <class U> static auto opt(U&& x) { return N::opt_NAME(std::optional<N::NAME>(std::forward<U>(x))); }
  template <class U> static auto nest(U&& x, U&& y) { return N::nest_NAME(std::tuple<N::NAME, std::tuple<int32_t, N::NAME>>(std::forward<U>(x), std::tuple<int32_t, N::NAME>(41, std::forward<U>(y)))); }
'''


def style(tr):
    return "bytes" if not tr["drop"] else "take" if tr["dflt"] and not tr["pin"] else "copy" if tr["clone"] else "none"


def combos():
    for copy in (0, 1):
        for clone in (0, 1):
            for dflt in (0, 1):
                for drop in (0, 1):
                    for pin in (0, 1):
                        if copy and (not clone or drop):
                            continue
                        if pin and not (drop and dflt):
                            continue
                        yield dict(copy=bool(copy), clone=bool(clone), dflt=bool(dflt), drop=bool(drop), pin=bool(pin))


def driver(crate, types):
    traits = "".join((TRAIT + (TRAIT_MOVABLE if style(tr) != "none" else "") + "};\n").replace("NAME", n) for n, tr in types)
    disp = "\n".join(f'else if (ty == "{n}") {{ Machine<N::{n}> m; m.run(in); }}' for n, _ in types)
    return DRIVER.replace("TRAITS", traits).replace("DISPATCH", disp).replace("CRATE", crate)
