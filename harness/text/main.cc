// Replays spec/Text.tla and spec/Iter.tla on StrRef, char_, SliceRef and IteratorAdapter.
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <array>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <vector>
#include "support/rs_std/char.h"
#include "support/rs_std/iterator_adapter.h"
#include "support/rs_std/slice_ref.h"
#include "support/rs_std/str_ref.h"
using namespace rs_std;
static std::string err;
#define CHECK(c) do { if (!(c)) { if (err.empty()) err = "!" #c; } } while (0)
struct Sink { std::string s; void Append(std::string_view v) { s += v; } };
// The bytes at the very end of a page, before an inaccessible one.
static char* guard_end;
static const char* at_end(const std::string& s) { char* p = guard_end - s.size(); memcpy(p, s.data(), s.size()); return p; }
static std::string bytes(std::istream& in) { int n; in >> n; std::string s; while (n-- > 0) { int b; in >> b; s += (char)b; } return s; }
static std::pair<uintptr_t, size_t> raw(const void* p) { std::pair<uintptr_t, size_t> r; memcpy(&r.first, p, 8); memcpy(&r.second, (const char*)p + 8, 8); return r; }
static void str(std::istream& in) {
  std::string s = bytes(in); int ok; in >> ok;
  const char* p = at_end(s);
  std::string_view v(p, s.size());
  auto r = StrRef::FromUtf8(v);
  CHECK(r.has_value() == (bool)ok);
  bool ascii = true; for (char c : s) ascii = ascii && !(c & 0x80);
  CHECK(internal::IsAscii(v) == ascii);
  if (!r || !ok) return;
  StrRef x = *r, y = StrRef::FromUtf8Unchecked(v), z; z = x;
  for (StrRef t : {x, y, z}) {
    CHECK(t.size() == s.size() && t.len() == s.size() && t.empty() == s.empty());
    CHECK(s.empty() || t.data() == p);
    CHECK(t.to_string_view() == s && std::string_view(t) == s);
    auto w = raw(&t);
    CHECK(w.second == s.size() && w.first != 0 && (s.empty() || w.first == (uintptr_t)p));
    Sink k; AbslStringify(k, t); CHECK(k.s == s);
    std::ostringstream o; o << t; CHECK(o.str() == s);
    CHECK(t == s && std::string_view(s) == t);
    SliceRef<const uint8_t> b(s);
    CHECK(b.size() == s.size() && (s.empty() || (const char*)b.data() == s.data()));
  }
}
// runs f in a child; true if it died by abort
template <class F> static bool dies(F f) {
  fflush(stdout); std::cout.flush();
  pid_t p = fork();
  if (!p) { fclose(stderr); f(); _exit(0); }
  int st; waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
static void chr(std::istream& in) {
  long c, d; int ok, okd, cmp, full; in >> c >> d >> ok >> okd >> cmp >> full; std::string e = bytes(in);
  auto x = char_::from_u32(c), y = char_::from_u32(d);
  CHECK(x.has_value() == (bool)ok); CHECK(y.has_value() == (bool)okd);
  if (!x || !ok) return;
  CHECK((uint32_t)*x == c && (uint32_t)char_() == 0 && (uint32_t)char_::MAX == 0x10ffff);
  uint32_t w; memcpy(&w, &*x, 4); CHECK(w == c);
  CHECK(x->len_utf8() == e.size());
  for (size_t n = full ? 0 : e.size(); n <= 6; n++) {
    if (n < e.size()) { CHECK(dies([&] { std::vector<uint8_t> b(n); x->encode_utf8(b); })); continue; }
    std::vector<uint8_t> b(n + 1, 0xEE);
    StrRef r = x->encode_utf8(std::span<uint8_t>(b.data(), n));
    CHECK(r == e && (const uint8_t*)r.data() == b.data());
    for (size_t i = e.size(); i <= n; i++) CHECK(b[i] == 0xEE);
  }
  Sink k; AbslStringify(k, *x); CHECK(k.s == e);
  if (!y || !okd) return;
  CHECK((*x == *y) == (cmp == 0) && (*x != *y) == (cmp != 0));
  CHECK((*x < *y) == (cmp < 0) && (*x > *y) == (cmp > 0) && (*x <= *y) == (cmp <= 0) && (*x >= *y) == (cmp >= 0));
  CHECK(((*x <=> *y) < 0) == (cmp < 0) && ((*x <=> *y) == 0) == (cmp == 0));
}
template <class A, class B> static void order(A a, B b, int cmp) {
  CHECK((a == b) == (cmp == 0) && (a != b) == (cmp != 0));
  CHECK((a < b) == (cmp < 0) && (a > b) == (cmp > 0) && (a <= b) == (cmp <= 0) && (a >= b) == (cmp >= 0));
}
static void pair(std::istream& in) {
  std::string a = bytes(in), b = bytes(in); int cmp; in >> cmp;
  auto x = StrRef::FromUtf8(a), y = StrRef::FromUtf8(b);
  CHECK(x && y); if (!x || !y) return;
  order(*x, *y, cmp); order(*x, std::string_view(b), cmp); order(std::string_view(a), *y, cmp);
  if (b.find('\0') == b.npos) order(*x, b.c_str(), cmp);
  if (a.find('\0') == a.npos) order(a.c_str(), *y, cmp);
  if (a.empty()) order(StrRef(), *y, cmp);
}
struct Three { uint32_t v[3]; bool operator==(const Three&) const = default; };
template <class E> E elem(int x) { return E(x); }
template <> Three elem<Three>(int x) { return {{7, (uint32_t)x, 9}}; }
template <class T> static void same(SliceRef<T> r, const T* p, size_t n) {
  CHECK(r.size() == n && r.to_span().size() == n && std::span<T>(r).size() == n);
  CHECK(n == 0 || (r.data() == p && r.to_span().data() == p && std::span<T>(r).data() == p));
  auto w = raw(&r);
  CHECK(w.second == n && w.first != 0 && w.first % alignof(T) == 0 && (n == 0 || w.first == (uintptr_t)p));
}
template <class E, class A, class B> static void eq(A a, B b, bool e) { CHECK((a == b) == e && (a != b) == !e); }
template <class E> static void slices(int i, int n, int j, int m, bool e, int total) {
  std::vector<E> arr; for (int k = 0; k < total; k++) arr.push_back(elem<E>((k + 1) % 2));
  E* p = arr.data();
  SliceRef<E> a(p + i, n); SliceRef<const E> ca(p + i, n), ca2(a), ca3(std::span<const E>(p + i, (size_t)n));
  SliceRef<E> a2(std::span<E>(p + i, (size_t)n)), a3; a3 = a;
  same<E>(a, p + i, n); same<E>(a2, p + i, n); same<E>(a3, p + i, n); same<const E>(ca, p + i, n); same<const E>(ca2, p + i, n); same<const E>(ca3, p + i, n);
  std::vector<E> v(p + j, p + j + m);
  SliceRef<const E> cv(v); SliceRef<E> mv(v);
  same<const E>(cv, v.data(), m); same<E>(mv, v.data(), m);
  same<E>(SliceRef<E>(nullptr, n), nullptr, 0); same<E>(SliceRef<E>(), nullptr, 0); same<const E>(SliceRef<const E>(), nullptr, 0);
  auto take = std::span<E>(p, total) | std::views::drop(i) | std::views::take(n);
  if constexpr (std::constructible_from<SliceRef<E>, decltype(take)>) same<E>(SliceRef<E>(take), p + i, n);
  if (n == 3) { std::array<E, 3> x{p[i], p[i + 1], p[i + 2]}; same<const E>(SliceRef<const E>(x), x.data(), 3); same<E>(SliceRef<E>(x), x.data(), 3); }
  SliceRef<E> b(p + j, m); SliceRef<const E> cb(b);
  eq<E>(a, b, e); eq<E>(ca, cb, e); eq<E>(a, cb, e); eq<E>(ca, b, e); eq<E>(a, mv, e); eq<E>(ca, cv, e); eq<E>(ca, v, e); eq<E>(v, ca, e);
  // writes through a mutable view reach the array
  if (n > 0) { a.data()[n - 1] = elem<E>(1); CHECK(p[i + n - 1] == elem<E>(1)); }
}
// ---- iterators
struct Item { int v; Item(int x) : v(x) {} Item(Item&& o) : v(o.v) { o.v = -9; } Item& operator=(Item&& o) { v = o.v; if (&o != this) o.v = -9; return *this; }
  Item(const Item&) = default; Item& operator=(const Item&) = default; };
static int fused_calls = 0;
struct Src { int n, pos = 0; };
namespace rs_std {
template <> struct impl<Src, ::rs::core::iter::Iterator> {
  static constexpr bool kIsImplemented = true; using Item = ::Item;
  static std::optional<Item> next(Src& s) { if (s.pos >= s.n) return std::nullopt; return Item(++s.pos); }
};
}
template <class S> static void iter(std::istream& in, S mk(Src&), int n) {
  Src shared{n};
  std::optional<rs::IteratorAdapter<S>> a[4];
  std::string op; int i, j, r;
  while (in >> op >> i >> j >> r) {
    if (op == "new") a[i].emplace(mk(shared));
    else if (op == "inc") { auto* x = &++*a[i]; CHECK(x == &*a[i]); }
    else if (op == "postinc") (*a[i])++;
    else if (op == "deref") CHECK((**a[i]).v == r);
    else if (op == "itermove") { auto&& q = iter_move(*a[i]); CHECK(q.v == r); CHECK(&q == &**a[i]); }
    else if (op == "copy") a[i].emplace(*a[j]);
    else if (op == "assign") *a[i] = *a[j];
    else if (op == "move") { a[i].emplace(std::move(*a[j])); a[j].reset(); }
    else if (op == "drop") a[i].reset();
    else CHECK(false);
    for (int k = 1; k < 4; k++) {
      int e; if (!(in >> e)) break;
      CHECK(a[k].has_value() == (e >= 0));
      if (e >= 0 && a[k]) { CHECK((*a[k] == rs::IteratorEnd()) == (e == 0)); CHECK((*a[k] != rs::IteratorEnd()) == (e != 0)); if (e > 0 && *a[k] != rs::IteratorEnd()) CHECK((**a[k]).v == e); }
    }
  }
}
int main() {
  char* m = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(m + 4096, 4096, PROT_NONE); guard_end = m + 4096;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); std::string k; in >> k; err.clear();
    if (k == "str") str(in);
    else if (k == "char") chr(in);
    else if (k == "pair") pair(in);
    else if (k == "slice") { int i, n, j, mm, e, t; in >> i >> n >> j >> mm >> e >> t; slices<uint8_t>(i, n, j, mm, e, t); slices<int32_t>(i, n, j, mm, e, t); slices<uint64_t>(i, n, j, mm, e, t); slices<Three>(i, n, j, mm, e, t); slices<char>(i, n, j, mm, e, t); }
    else if (k == "ival") { int n; in >> n; iter<Src>(in, [](Src& s) { return Src{s.n}; }, n); }
    else if (k == "iptr") { int n; in >> n; iter<Src*>(in, [](Src& s) { return &s; }, n); }
    std::cout << "=> " << (err.empty() ? "ok" : err) << std::endl;
  }
}
