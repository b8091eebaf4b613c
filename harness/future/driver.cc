#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include "MOD.h"
#include "support/rs_std/cpp_waker.h"
#include "support/rs_std/waker.h"
namespace M = MOD;
static std::string log_;
static bool trace = true;
static void ev(char e, unsigned n) { log_ += e; if (n != ~0u) log_ += std::to_string(n); log_ += ' '; }
static int vals = 0;
extern "C" void t_ev(uint8_t e, uint32_t n) { if (e == 'v' && n == 0) return; ev(e, n); }

struct State { unsigned refs; };
static std::map<unsigned, State> alive;
static unsigned next_id = 1;
template <class W>
struct Obj final : W {
  unsigned id; bool deep; uint64_t guard = 0x5eedf00d;
  Obj(bool d) : id(next_id++), deep(d) { alive[id] = {1}; }
  void use(char e) { if (guard != 0x5eedf00d || !alive.count(id)) { log_ += "DEAD "; } ev(e, id); }
  void unref() { if (--alive[id].refs == 0) { alive.erase(id); ev('F', id); guard = 0; delete this; } }
  void WakeByRef() override { use('R'); }
  void WakeAndDestroy() override { use('X'); unref(); }
  W* Clone() override { use('C'); if (deep) return new Obj(true); ++alive[id].refs; return this; }
  void Destroy() override { use('D'); unref(); }
};
using RW = Obj<rs_std::Waker>;
using CW = Obj<rs_std::CppWaker>;

struct Any { virtual ~Any() = default; virtual bool poll(int b) = 0; virtual std::unique_ptr<Any> move() = 0;
  virtual void discard() {} virtual bool done() { return false; } virtual bool take() { return false; } };
static RW* rw[5]; static CW* cw[5];
template <class T> void show(T& v) {
  if constexpr (std::is_same_v<T, M::Val>) ev('=', v.n);
  else if constexpr (std::is_same_v<T, M::Big>) { bool ok = (uintptr_t)&v % 32 == 0; for (auto x : v.a) ok &= x == v.a[0]; ev('=', ok ? v.a[0] : 0); }
  else if constexpr (std::is_integral_v<T>) ev('=', (unsigned)v);
  else { rs_std::StrRef s = v.as_str(); ev('=', std::stoul(std::string(s.data(), s.size()))); }
}
template <class T>
struct Fut final : Any {
  using F = crubit::DynErasedFuture<T>;
  F f;
  Fut(F&& x) : f(std::move(x)) {}
  std::unique_ptr<Any> move() override { return std::make_unique<Fut>(std::move(f)); }
  bool poll(int b) override {
    if constexpr (std::is_void_v<T>) { bool r = f.Poll(rw[b], nullptr); if (r) log_ += "= "; return r; }
    else {
      struct alignas(alignof(T)) { unsigned char pre[64]; unsigned char b[sizeof(T)]; unsigned char post[64]; } s;
      static_assert(alignof(T) <= 64);
      std::memset(&s, 0xa5, sizeof s);
      auto same = [](unsigned char* p, size_t n) { for (size_t i = 0; i < n; ++i) if (p[i] != 0xa5) return false; return true; };
      bool r = f.Poll(rw[b], reinterpret_cast<T*>(s.b));
      if (!same(s.pre, 64) || !same(s.post, 64)) log_ += "SMASH ";
      if (!r) { if (!same(s.b, sizeof(T))) log_ += "WROTE "; return false; }
      T& v = *reinterpret_cast<T*>(s.b);
      show(v);
      v.~T();
      return true;
    }
  }
};
struct DFut final : Any {
  M::Df f;
  DFut(M::Df&& x) : f(std::move(x)) {}
  std::unique_ptr<Any> move() override { return std::make_unique<DFut>(std::move(f)); }
  bool poll(int b) override { bool r = f.poll(cw[b]); if (r) log_ += "= "; return r; }
  void discard() override { f.discard(); }
  bool done() override { return f.done(); }
  bool take() override { return std::move(f).take(); }
};
template <class T> std::unique_ptr<Any> wrap(crubit::DynErasedFuture<T>&& f) { return std::make_unique<Fut<T>>(std::move(f)); }

static std::unique_ptr<Any> slot[9];
static M::Val* nine() { static M::Val* v = new M::Val(M::Val::make(9)); return v; }

static void step(const std::string& line) {
  std::istringstream in(line);
  std::string c; in >> c;
  int a = 0, b = 0; std::string w;
  if (c == "b") { in >> a; if (a <= 2) rw[a] = new RW(a == 2); else cw[a] = new CW(a == 4); }
  else if (c == "x") { in >> a; if (a <= 2) { rw[a]->unref(); rw[a] = nullptr; } else { cw[a]->unref(); cw[a] = nullptr; } }
  else if (c == "n") {
    unsigned n; in >> a >> w >> n;
    auto v = [&] { return M::Val::make(n); };
    slot[a] = w == "val" ? wrap(M::val(v())) : w == "echo" ? wrap(M::echo(v())) : w == "twice" ? wrap(M::twice(v()))
      : w == "byte" ? wrap(M::byte(v())) : w == "wide" ? wrap(M::wide(v())) : w == "big" ? wrap(M::big(v())) : w == "text" ? wrap(M::text(v()))
      : w == "unit" ? wrap(M::unit(v())) : w == "me" ? wrap(v().me()) : w == "ref" ? wrap(M::by_ref(nine())) : std::unique_ptr<Any>(new DFut(M::Df::make(v())));
  }
  else if (c == "p") {
    in >> a >> b; in >> w;
    M::script(rs_std::StrRef::FromUtf8(std::string_view(w)).value());
    if (!slot[a]->poll(b)) log_ += "? ";
    if (M::script_left()) log_ += "LEFT ";
    M::script(rs_std::StrRef::FromUtf8(std::string_view("")).value());
  }
  else if (c == "m") { in >> a >> b; slot[b] = slot[a]->move(); }
  else if (c == "d") { in >> a; slot[a].reset(); }
  else if (c == "c") { in >> a; slot[a]->discard(); }
  else if (c == "q") { in >> a; log_ += slot[a]->done() ? "1 " : "0 "; }
  else if (c == "t") { in >> a; bool r = slot[a]->take(); log_ += r ? "1 " : "0 "; }
  else if (c == "hr") { in >> a; M::h_wake_ref(a); }
  else if (c == "hw") { in >> a; M::h_wake(a); }
  else if (c == "hd") { in >> a; M::h_drop(a); }
  else if (c == "hc") { in >> a >> b; M::h_clone(a, b); }
  else log_ += "BAD ";
}

int main() {
  std::string line;
  nine();
  while (std::getline(std::cin, line)) {
    std::string out;
    next_id = 1; alive.clear();
    std::istringstream in(line);
    std::string cmd;
    while (std::getline(in, cmd, ';')) {
      log_.clear();
      bool other = cmd[0] == '~';
      if (other) std::thread([&] { step(cmd.substr(1)); }).join(); else step(cmd);
      out += log_ + ";";
    }
    // everything goes: every value and every waker exactly once
    log_.clear();
    for (auto& s : slot) s.reset();
    for (unsigned k = 1; k < 9; ++k) if (M::h_has(k)) M::h_drop(k);
    for (auto*& w : rw) if (w) { w->unref(); w = nullptr; }
    for (auto*& w : cw) if (w) { w->unref(); w = nullptr; }
    out += "left " + std::to_string(alive.size()) + " live " + std::to_string(M::live());
    if (log_.find("DEAD") != std::string::npos) out += " DEAD";
    std::cout << "=> " << out << std::endl;
  }
}
