// Replays spec/Alias.tla on CheckNoMutableAliasing / HasMutableAliasing with arrays of every size.
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include "support/internal/check_no_mutable_aliasing.h"
using namespace crubit::internal;
static sigjmp_buf jb;
static void on_abort(int) { siglongjmp(jb, 1); }
template <size_t N> std::array<PtrData, N> arr(const std::vector<PtrData>& v) {
  std::array<PtrData, N> a;
  for (size_t i = 0; i < N; i++) a[i] = v[i];
  return a;
}
template <size_t M, size_t N> std::string one(const std::vector<PtrData>& m, const std::vector<PtrData>& c) {
  int has = HasMutableAliasing(arr<M>(m), arr<N>(c));
  volatile int no = 1;
  if (sigsetjmp(jb, 1) == 0) {
    CheckNoMutableAliasing(arr<M>(m), arr<N>(c));
    no = 0;
  }
  std::vector<PtrData> m2 = m, c2 = c;
  int sp = HasMutableAliasingSpans(m2, c2);
  return std::to_string(has) + std::to_string(no) + std::to_string(sp);
}
template <size_t M> std::string two(const std::vector<PtrData>& m, const std::vector<PtrData>& c) {
  switch (c.size()) {
#define N(n) case n: return one<M, n>(m, c);
    N(0) N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8)
  }
  return "?";
}
int main() {
  signal(SIGABRT, on_abort);
  std::string l;
  static char arena[4096];
  while (std::getline(std::cin, l)) {
    std::istringstream in(l);
    std::vector<PtrData> m, c;
    int mut, s, n;
    while (in >> mut >> s >> n) {
      uintptr_t a = n ? (uintptr_t)arena + s : 0;  // empty slices have no address
      (mut ? m : c).push_back({a, a + n});
    }
    std::string r = "?";
    switch (m.size()) {
#undef N
#define N(n) case n: r = two<n>(m, c); break;
      N(0) N(1) N(2) N(3) N(4) N(5) N(6) N(7) N(8)
    }
    std::cout << "=> " << r << std::endl;
  }
}
