// Values of bridged types: made from a stream of numbers, shown as text.
#pragma once
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <bit>
#include <cstring>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include "support/bridge.h"
#include "support/rs_std/char.h"
#include "support/rs_std/slice_ref.h"
extern "C" { uint64_t tk_new(uint64_t v); void tk_drop(uint64_t id); uint64_t tk_val(uint64_t id); }
namespace vt {
extern long objects;   // C++ objects alive
struct Tk {
  uint64_t id;
  explicit Tk(uint64_t v) : id(tk_new(v)) { objects++; }
  Tk(Tk&& o) : id(o.id) { o.id = 0; objects++; }
  Tk& operator=(Tk&& o) { if (this != &o) { if (id) tk_drop(id); id = o.id; o.id = 0; } return *this; }
  ~Tk() { objects--; if (id) tk_drop(id); id = 0; }
};
struct Big { uint64_t a; uint32_t b; uint16_t c; uint8_t d, e; };
template <class A> struct One { A a; };
template <class A, class B> struct Two { A a; B b; };
using BoxTk = crubit::BoxedAbi<Tk>;
template <class A> struct OneAbi {
  using Value = One<typename A::Value>;
  static constexpr size_t kSize = A::kSize;
  explicit OneAbi(A a) : abi(a) {}
  void Encode(Value v, crubit::Encoder& e) && { std::move(abi).Encode(std::move(v.a), e); }
  Value Decode(crubit::Decoder& d) && { return Value{std::move(abi).Decode(d)}; }
  A abi;
};
template <class A, class B> struct TwoAbi {
  using Value = Two<typename A::Value, typename B::Value>;
  static constexpr size_t kSize = A::kSize + B::kSize;
  TwoAbi(A a, B b) : a(a), b(b) {}
  void Encode(Value v, crubit::Encoder& e) && { std::move(a).Encode(std::move(v.a), e); std::move(b).Encode(std::move(v.b), e); }
  Value Decode(crubit::Decoder& d) && { return Value{std::move(a).Decode(d), std::move(b).Decode(d)}; }
  A a; B b;
};
struct Src {
  uint64_t seed, bits, i = 0;
  bool bit() { bool b = bits & 1; bits >>= 1; return b; }
  uint64_t v() {
    i++;
    if (seed == 0) return 0;
    if (seed == 1) return ~0ull;
    uint64_t z = (seed * 1000 + i) * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
inline void hex(std::string& o, uint64_t v) { char b[32]; snprintf(b, sizeof b, "%" PRIx64 ";", v); o += b; }
template <class T> struct V {     // integers
  static T make(Src& s) { return (T)s.v(); }
  static void show(const T& x, std::string& o) { hex(o, (std::make_unsigned_t<T>)x); }
};
template <> struct V<bool> { static bool make(Src& s) { return s.v() & 1; } static void show(const bool& x, std::string& o) { hex(o, *(const uint8_t*)&x); } };
template <> struct V<float> { static float make(Src& s) { return std::bit_cast<float>((uint32_t)s.v()); } static void show(const float& x, std::string& o) { hex(o, std::bit_cast<uint32_t>(x)); } };
template <> struct V<double> { static double make(Src& s) { return std::bit_cast<double>(s.v()); } static void show(const double& x, std::string& o) { hex(o, std::bit_cast<uint64_t>(x)); } };
template <> struct V<rs_std::char_> {
  static rs_std::char_ make(Src& s) { uint32_t c = s.v() % 0x10F800; return *rs_std::char_::from_u32(c >= 0xD800 ? c + 0x800 : c); }
  static void show(const rs_std::char_& x, std::string& o) { hex(o, (uint32_t)x); }
};
template <class T> struct V<T*> { static T* make(Src& s) { return (T*)s.v(); } static void show(T* const& x, std::string& o) { hex(o, (uint64_t)x); } };
template <class T> struct V<rs_std::SliceRef<T>> {
  static rs_std::SliceRef<T> make(Src& s) { uint64_t v = s.v(); return rs_std::SliceRef<T>((T*)((v | 8) & ~7ull), v >> 40); }
  static void show(const rs_std::SliceRef<T>& x, std::string& o) { uint64_t r[2]; std::memcpy(r, &x, 16); hex(o, x.size() ? r[0] : 0); hex(o, x.size()); }
};
template <> struct V<Tk> { static Tk make(Src& s) { return Tk(s.v()); } static void show(const Tk& x, std::string& o) { hex(o, tk_val(x.id)); } };
template <> struct V<Big> {
  static Big make(Src& s) { uint64_t v = s.v(); return {v, (uint32_t)(v + 1), (uint16_t)(v + 2), (uint8_t)(v + 3), (uint8_t)(v + 4)}; }
  static void show(const Big& x, std::string& o) { hex(o, x.a); hex(o, x.b); hex(o, x.c); hex(o, x.d); hex(o, x.e); }
};
template <class T> struct V<std::optional<T>> {
  static std::optional<T> make(Src& s) { if (!s.bit()) return std::nullopt; return std::optional<T>(V<T>::make(s)); }
  static void show(const std::optional<T>& x, std::string& o) { if (x.has_value()) { o += "S"; V<T>::show(*x, o); } else o += "N"; }
};
template <class A, class B> struct V<std::pair<A, B>> {
  static std::pair<A, B> make(Src& s) { return std::pair<A, B>{V<A>::make(s), V<B>::make(s)}; }
  static void show(const std::pair<A, B>& x, std::string& o) { V<A>::show(x.first, o); V<B>::show(x.second, o); }
};
template <class A> struct V<One<A>> { static One<A> make(Src& s) { return {V<A>::make(s)}; } static void show(const One<A>& x, std::string& o) { V<A>::show(x.a, o); } };
template <class A, class B> struct V<Two<A, B>> { static Two<A, B> make(Src& s) { return {V<A>::make(s), V<B>::make(s)}; } static void show(const Two<A, B>& x, std::string& o) { V<A>::show(x.a, o); V<B>::show(x.b, o); } };
template <class... A> struct V<std::tuple<A...>> {
  static std::tuple<A...> make(Src& s) { return std::tuple<A...>{V<A>::make(s)...}; }
  static void show(const std::tuple<A...>& x, std::string& o) { std::apply([&](const A&... a) { (V<A>::show(a, o), ...); }, x); }
};
// one type of the direct codec test
struct Ops {
  virtual ~Ops() {}
  virtual size_t size() = 0;
  virtual void* make(uint64_t seed, uint64_t bits) = 0;
  virtual std::string show(void* p) = 0;
  virtual void encode(void* p, unsigned char* b) = 0;
  virtual void* decode(const unsigned char* b) = 0;
  virtual void drop(void* p) = 0;
};
template <class Abi, class F> struct OpsFor : Ops {
  using T = typename Abi::Value;
  F f;
  OpsFor(F f) : f(f) {}
  size_t size() override { return Abi::kSize; }
  void* make(uint64_t seed, uint64_t bits) override { Src s{seed, bits}; return new T(V<T>::make(s)); }
  std::string show(void* p) override { std::string o; V<T>::show(*(T*)p, o); return o; }
  void encode(void* p, unsigned char* b) override { crubit::internal::Encode<Abi>(f(), b, std::move(*(T*)p)); delete (T*)p; }
  void* decode(const unsigned char* b) override { return new T(crubit::internal::Decode<Abi>(f(), b)); }
  void drop(void* p) override { delete (T*)p; }
};
template <class Abi, class F> Ops* ops(F f) { return new OpsFor<Abi, F>(f); }
}  // namespace vt
