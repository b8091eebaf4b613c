// Replays histories of spec/Wrap.tla on rs::Movable, crubit::Slot, MemSwap and MoveAssignOrDestroyAndConstruct.
#include <array>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include "support/internal/memswap.h"
#include "support/internal/move_assign.h"
#include "support/internal/slot.h"
#include "support/movable.h"
static std::set<const void*> alive;   // objects of tracked types
static std::string err;
static bool throw_next = false;
static void fail(const char* s) { if (err.empty()) err = s; }
static void born(const void* p) { if (!alive.insert(p).second) fail("constructed over a live value"); }
static void dead(const void* p) { if (!alive.erase(p)) fail("destroyed a value that is not there"); }
static void use(const void* p) { if (!alive.count(p)) fail("used a value that is not there"); }
struct Boom {};
static int fresh_id = 0;
// Tracked value; R relocating constructor, M moves, C copies.
template <bool C, bool M, bool R> struct T {
  int id;
  T() : id(fresh_id) { born(this); }
  explicit T(int i) : id(i) { born(this); }
  ~T() { dead(this); id = -77; }
  T(crubit::UnsafeRelocateTag, T&& o) requires R : id(o.id) { use(&o); alive.erase(&o); o.id = -55; born(this); }
  T(T&& o) noexcept requires M : id(o.id) { use(&o); born(this); o.id = -2; }
  T(T&& o) requires(!M) = delete;
  T& operator=(T&& o) noexcept requires M { use(&o); use(this); int i = o.id; o.id = -2; id = i; return *this; }
  T& operator=(T&& o) requires(!M) = delete;
  T(const T& o) requires C : id(o.id) { use(&o); if (throw_next) throw Boom{}; born(this); }
  T(const T& o) requires(!C) = delete;
  T& operator=(const T& o) requires C { use(&o); use(this); if (throw_next) throw Boom{}; id = o.id; return *this; }
  T& operator=(const T& o) requires(!C) = delete;
};
// Untracked trivial value.
struct Triv { int id; Triv() : id(fresh_id) {} explicit Triv(int i) : id(i) {} };
static int id_of(const Triv& t) { return t.id; }
template <bool C, bool M, bool R> int id_of(const T<C, M, R>& t) { use(&t); return t.id; }
template <class A> int id_of(const std::array<A, 2>& t) { int a = id_of(t[0]); if (a > 0 && id_of(t[1]) != a) fail("elements of an array differ"); return a; }
template <class V> struct Make { static void at(void* p, int id) { new (p) V(id); } };
template <class A> struct Make<std::array<A, 2>> { static void at(void* p, int id) { A* a = (A*)p; new (a) A(id); new (a + 1) A(id); } };
template <class V> struct Width { static constexpr int n = 1; };
template <class A> struct Width<std::array<A, 2>> { static constexpr int n = 2; };

template <class V, bool COPY, bool MOVE, bool RELOC, bool TRACK> struct Machine {
  using Mv = rs::Movable<V>; using Sl = crubit::Slot<V>;
  static constexpr bool ARR = Width<V>::n == 2;
  static constexpr bool MOVABLE = MOVE || (RELOC && !ARR);
  alignas(16) char mb[4][sizeof(Mv) + 16], sb[4][sizeof(Sl) + 16], vb[4][sizeof(V) + 16];
  bool ma[4] = {}, sa[4] = {}, si[4] = {}, va[4] = {};
  Mv& m(int i) { return *(Mv*)mb[i]; } Sl& s(int i) { return *(Sl*)sb[i]; } V& v(int i) { return *(V*)vb[i]; }
  template <class X> void* raw(X& b) { memset(b, 0xA5, sizeof(b)); return b; }
  void step(const std::string& o, int i, int j, int id, bool thr) {
    fresh_id = id; throw_next = thr;
    try {
      if constexpr (MOVABLE) {
        if (o == "m_default") { new (raw(mb[i])) Mv(); ma[i] = true; return; }
        if constexpr (!ARR) {
          if (o == "m_inplace") { new (raw(mb[i])) Mv(std::in_place, id); ma[i] = true; return; }
          if (o == "m_assignnew") { m(i) = Mv(std::in_place, id); return; }
          if (o == "m_set") { (*m(i)).id = id; if (m(i)->id != id) fail("-> and * differ"); return; }
        }
        if constexpr (MOVE) if (o == "m_fromv") { new (raw(mb[i])) Mv(std::move(v(j))); ma[i] = true; return; }
        if (o == "m_fromslot") { new (raw(mb[i])) Mv(Mv::TakeFromSlot(std::move(s(j)))); ma[i] = true; si[j] = false; return; }
        if (o == "m_movenew") { new (raw(mb[i])) Mv(std::move(m(j))); ma[i] = true; return; }
        if (o == "m_moveto") { m(i) = std::move(m(j)); return; }
        if (o == "m_swap") { std::swap(m(i), m(j)); return; }
        if constexpr (COPY) {
          if (o == "m_copynew") { void* p = raw(mb[i]); new (p) Mv(std::as_const(m(j))); ma[i] = true; return; }
          if (o == "m_copyto") { m(i) = std::as_const(m(j)); return; }
        }
        if (o == "m_destroy") { m(i).~Mv(); ma[i] = false; memset(mb[i], 0x5A, sizeof(mb[i])); return; }
      }
      if (o == "s_new") { new (raw(sb[i])) Sl(); sa[i] = true; si[i] = false; return; }
      if (o == "s_fill") { Make<V>::at(s(i).Get(), id); si[i] = true; return; }
      if constexpr (MOVE) {
        if (o == "s_fromv") { new (raw(sb[i])) Sl(std::move(v(j))); sa[i] = si[i] = true; return; }
        if (o == "s_movenew") { new (raw(sb[i])) Sl(std::move(s(j))); sa[i] = si[i] = true; return; }
        if (o == "v_moveassign") { crubit::MoveAssignOrDestroyAndConstruct(&v(i), std::move(v(j))); return; }
      }
      if constexpr (MOVE || RELOC) if (o == "s_take") { new (raw(vb[j])) V(std::move(s(i)).AssumeInitAndTakeValue()); va[j] = true; si[i] = false; return; }
      if (o == "s_destroyvalue") { std::destroy_at(s(i).Get()); si[i] = false; return; }
      if (o == "s_destroy") { s(i).~Sl(); sa[i] = false; memset(sb[i], 0x5A, sizeof(sb[i])); return; }
      if (o == "s_leak") { V* p = s(i).Get(); s(i).~Sl(); sa[i] = si[i] = false; id_of(*p); std::destroy_at(p); memset(sb[i], 0x5A, sizeof(sb[i])); return; }
      if (o == "v_make") { Make<V>::at(raw(vb[i]), id); va[i] = true; return; }
      if (o == "v_destroy") { std::destroy_at(&v(i)); va[i] = false; return; }
      if (o == "v_memswap") { crubit::MemSwap(v(i), v(j)); return; }
    } catch (Boom&) { if (!thr) fail("unexpected exception"); return; }
    fail("operation not offered");
  }
  void run(std::istream& in) {
    alive.clear(); err.clear();
    int nm, ns, nv; in >> nm >> ns >> nv;
    std::string o; int i, j, id, thr; std::string out;
    while (in >> o >> i >> j >> id >> thr) {
      step(o, i, j, id, thr);
      throw_next = false;
      out += "[";
      if constexpr (MOVABLE)
        for (int k = 1; k <= nm; k++) {
          int x = 0;
          if (ma[k]) {
            bool e = m(k).valueless_after_move();
            if (e == static_cast<bool>(m(k))) fail("valueless_after_move and bool agree");
            x = e ? -1 : id_of(*std::as_const(m(k)));
            if (!e && &*m(k) != m(k).operator->()) fail("* and -> differ");
          }
          out += std::to_string(x) + ",";
        }
      else for (int k = 1; k <= nm; k++) out += "0,";
      for (int k = 1; k <= ns; k++) out += std::to_string(!sa[k] ? 0 : !si[k] ? -1 : id_of(*s(k).Get())) + ",";
      for (int k = 1; k <= nv; k++) out += std::to_string(!va[k] ? 0 : id_of(v(k))) + ",";
      out += (TRACK ? std::to_string(alive.size() / Width<V>::n) : std::string("-")) + (err.empty() ? "" : "!" + err) + "]";
    }
    std::cout << "=> " << out << std::endl;
  }
};
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string t; in >> t;
#define CASE(C, M, R) \
    if (t == #C #M #R "0") { Machine<T<C, M, R>, C, M, R, true> x; x.run(in); } \
    if (t == #C #M #R "1") { Machine<std::array<T<C, M, R>, 2>, C, M, R, true> x; x.run(in); }
    CASE(0, 0, 1) CASE(0, 1, 0) CASE(0, 1, 1) CASE(1, 1, 0) CASE(1, 1, 1)
    if (t == "triv0") { Machine<Triv, true, true, false, false> x; x.run(in); }
    if (t == "triv1") { Machine<std::array<Triv, 2>, true, true, false, false> x; x.run(in); }
  }
}
