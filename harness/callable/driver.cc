// C++ half of the callable harness: slots driven by the histories of
// spec/Callable.tla.  One line per history on stdin, one line of observations out.
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>

#include "support/internal/slot.h"
#include "support/rs_std/dyn_callable.h"

using absl::internal_any_invocable::EmptyManager;
using absl::internal_any_invocable::ForwardedParameterType;
using absl::internal_any_invocable::FunctionToCall;
using absl::internal_any_invocable::TypeErasedState;

static long toks = 0;
static long broken = 0;
// Passed by address and moved bytewise, as layout-compatible types are.
struct Tok {
  int v, check;
  explicit Tok(int v) : v(v), check(~v) { ++toks; }
  Tok(Tok&& o) : v(o.v), check(o.check) { broken += check != ~v; o.v = -5; o.check = ~-5; ++toks; }
  Tok(::crubit::UnsafeRelocateTag, Tok&& o) { std::memcpy((void*)this, (void*)&o, sizeof *this); }
  Tok& operator=(Tok&&) = delete;
  ~Tok() { broken += check != ~v; check = 0x5a5a; --toks; }
};

extern "C" {
int drops(int t);
void forget_drops();
void set_arg(int x);
int get_result();
void tok_drop(Tok* t) { t->~Tok(); }
void tok_new(Tok* t, int v) { new (t) Tok(v); }
void running();
}
static void (*on_run)(void*) = nullptr;
static void* on_run_arg = nullptr;
void running() {
  if (auto f = on_run) { on_run = nullptr; f(on_run_arg); }
}

static sigjmp_buf jump;
static volatile bool armed = false;
static void on_abort(int) { if (armed) siglongjmp(jump, 1); }

template <class T>
struct Place {
  alignas(T) unsigned char b[sizeof(T)];
  bool on = false;
  T* p() { return std::launder(reinterpret_cast<T*>(b)); }
  template <class F>
  void build(F f) { std::memset(b, 0xaa, sizeof b); new (b) T(f()); on = true; }
  template <class... A>
  void make(A&&... a) { std::memset(b, 0xaa, sizeof b); new (b) T(std::forward<A>(a)...); on = true; }
  void kill() { p()->~T(); std::memset(b, 0xbb, sizeof b); on = false; }
};

struct Glue {
  void (*give)(int, int, int);
  void (*makebox)(int, int);
  void (*boxgive)(int, int, int);
  void (*back)(int, int);
  void (*anyback)(void*, int);
  int (*callbox)(int, int);
  void (*dropbox)(int);
};

struct World {
  virtual std::string run(const std::string& op, int i, int j, int x) = 0;
  virtual std::string slots() = 0;
  virtual void finish() = 0;
  virtual ~World() = default;
};

template <class Sig>
struct Shape;
#define SHAPE(qual)                                                                                       \
  template <>                                                                                             \
  struct Shape<int(int) qual> {                                                                           \
    template <class F>                                                                                    \
    static int call(F&& f, int x) { return std::forward<F>(f)(x); }                                       \
  };                                                                                                      \
  template <>                                                                                             \
  struct Shape<void() qual> {                                                                             \
    template <class F>                                                                                    \
    static int call(F&& f, int x) { set_arg(x); std::forward<F>(f)(); return get_result(); }              \
  };                                                                                                      \
  template <>                                                                                             \
  struct Shape<void(int&) qual> {                                                                         \
    template <class F>                                                                                    \
    static int call(F&& f, int x) { int y = x; std::forward<F>(f)(y); return y; }                         \
  };                                                                                                      \
  template <>                                                                                             \
  struct Shape<Tok(Tok) qual> {                                                                           \
    template <class F>                                                                                    \
    static int call(F&& f, int x) { Tok t = std::forward<F>(f)(Tok(x)); return t.v; }                     \
  };                                                                                                      \
  template <>                                                                                             \
  struct Shape<int(int, Tok, int&) qual> {                                                                \
    template <class F>                                                                                    \
    static int call(F&& f, int x) { int y = 1000; int r = std::forward<F>(f)(x - 3, Tok(x + 4), y); return y == 1000 + x + 4 ? r : -99; } \
  };
SHAPE(const)
SHAPE()
SHAPE(&&)

template <class Sig>
struct IsConst : std::false_type {};
template <class R, class... P>
struct IsConst<R(P...) const> : std::true_type {};

template <class Sig>
struct W : World {
  using D = rs_std::DynCallable<Sig>;
  using A = absl::AnyInvocable<Sig>;
  Glue g;
  static inline Place<D> slot[4];
  static inline Place<A> any[4];
  explicit W(Glue g) : g(g) {}

  static void accept(D d, int s, int op) {
    if (op == 0) slot[s].make(std::move(d));
    else *slot[s].p() = std::move(d);
  }
  static void reset(void* p) { *static_cast<D*>(p) = D(); }
  static void unmake(void* p) { static_cast<Place<D>*>(p)->kill(); }

  std::string run(const std::string& op, int i, int j, int x) override {
    D* s = i < 4 ? slot[i].p() : nullptr;
    int r = 0;
    if (op == "new") g.give(j, i, 0);
    else if (op == "assign") g.give(j, i, 1);
    else if (op == "makebox") g.makebox(j, i);
    else if (op == "default") slot[i].make();
    else if (op == "nullptr") slot[i].make(nullptr);
    else if (op == "movenew") slot[i].make(std::move(*slot[j].p()));
    else if (op == "moveassign") *s = std::move(*slot[j].p());
    else if (op == "selfmove") { D* q = s; *s = std::move(*q); slot[i].kill(); }
    else if (op == "null") *s = nullptr;
    else if (op == "swap") s->swap(*slot[j].p());
    else if (op == "stdswap") std::swap(*s, *slot[j].p());
    else if (op == "adlswap") swap(*s, *slot[j].p());
    else if (op == "destroy") slot[i].kill();
    else if (op == "call") r = Shape<Sig>::call(std::move(*s), x);
    else if (op == "callconst") {
      if constexpr (IsConst<Sig>::value) r = Shape<Sig>::call(std::as_const(*s), x);
    }
    else if (op == "reset") { on_run = reset; on_run_arg = s; r = Shape<Sig>::call(std::move(*s), x); }
    else if (op == "unmake") { on_run = unmake; on_run_arg = &slot[i]; r = Shape<Sig>::call(std::move(*s), x); }
    else if (op == "callspent") {
      armed = true;
      long t = toks;
      if (sigsetjmp(jump, 1) == 0) { Shape<Sig>::call(std::move(*s), 1); armed = false; return "returned"; }
      armed = false;
      toks = t;
    }
    else if (op == "toany") any[j].build([&]() -> A { return std::move(*s); });
    else if (op == "callany") r = Shape<Sig>::call(std::move(*any[i].p()), x);
    else if (op == "moveany") any[i].make(std::move(*any[j].p()));
    else if (op == "destroyany") any[i].kill();
    else if (op == "anytorust") {
      A& a = *any[i].p();
      bool is_rust = false;
      alignas(16) TypeErasedState to;
      bool* q = &is_rust;
      std::memset(&to, 0, sizeof to);
      std::memcpy(&to, &q, sizeof q);
      a.manager(FunctionToCall::relocate_from_to_and_query_rust, &a.state, &to);
      a.manager = EmptyManager;
      a.invoker = nullptr;
      if (!is_rust) return "not rust";
      g.anyback(&to, j);
    }
    else if (op == "torust") g.back(i, j);
    else if (op == "callbox") r = g.callbox(i, x);
    else if (op == "calldud") r = g.callbox(i, x) == -77 ? 0 : -1;
    else if (op == "dropbox") g.dropbox(i);
    else if (op == "boxtocpp") g.boxgive(i, j, 1);
    else return "?" + op;
    return std::to_string(r);
  }
  // Per slot: - absent, e empty, v not empty (both spellings of the question must agree).
  std::string slots() override {
    std::string o;
    for (int i = 1; i < 4; i++) {
      if (!slot[i].on) { o += '-'; continue; }
      const D& d = *slot[i].p();
      bool v = static_cast<bool>(d);
      bool same = (d != nullptr) == v && (nullptr != d) == v && (d == nullptr) == !v && (nullptr == d) == !v;
      o += !same ? '?' : v ? 'v' : 'e';
    }
    for (int i = 1; i < 4; i++) o += !any[i].on ? '-' : static_cast<bool>(*any[i].p()) ? 'v' : 'e';
    return o;
  }
  void finish() override {
    for (int i = 1; i < 4; i++) {
      if (slot[i].on) slot[i].kill();
      if (any[i].on) any[i].kill();
      g.dropbox(i);
    }
  }
};

#include "glue.inc"

int main() {
  struct sigaction sa = {};
  sa.sa_handler = on_abort;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, nullptr);
  std::string line;
  // sig shape nt; op i j x; op i j x; ...
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string name, op;
    int nt;
    in >> name >> nt;
    World* w = world(name);
    forget_drops();
    std::string out;
    int i, j, x;
    while (in >> op >> i >> j >> x) {
      std::string r = w->run(op, i, j, x);
      out += r + "/";
      for (int t = 0; t <= nt; t++) out += std::to_string(drops(t)) + (t < nt ? "," : "/");
      out += w->slots() + "/" + std::to_string(toks) + "," + std::to_string(broken) + ";";
    }
    w->finish();
    out += "end/";
    for (int t = 0; t <= nt; t++) out += std::to_string(drops(t)) + (t < nt ? "," : "/");
    out += std::to_string(toks) + "," + std::to_string(broken);
    toks = broken = 0;
    std::printf("=> %s\n", out.c_str());
    std::fflush(stdout);
  }
}
