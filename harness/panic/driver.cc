#include <csignal>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "support/rs_std/waker.h"
#include "MOD.h"
namespace M = ::MOD;
static std::string script;
static size_t at;
static char armed;
static int fd;
extern "C" {
unsigned char t_next() { return at < script.size() ? script[at++] : 'r'; }
void t_ev(unsigned char e) { if (write(fd, &e, 1) != 1) _exit(3); }
bool t_armed(char w) { bool a = armed == w || armed == '*'; if (a) armed = 0; return a; }
void t_cpp();
}
/// Says so when a C++ frame is left in any other way than by its own return.
struct Guard { bool ok = false; ~Guard() { if (!ok) t_ev('G'); } };
struct Wk final : rs_std::Waker {
  void WakeByRef() override {}
  void WakeAndDestroy() override {}
  rs_std::Waker* Clone() override { return this; }
  void Destroy() override {}
};
template <class T>
std::optional<T> poll(crubit::DynErasedFuture<T>& f) {
  Wk w;
  T out{};
  if (!f.Poll(&w, &out)) return std::nullopt;
  return out;
}
static bool want(bool b) { if (!b) t_ev('!'); return b; }
#define ARM armed = 'f'
#define ARM_(w) armed = w
/// The calls of generated bindings a C++ frame can make. Each arms the hook right before.
static void make(int kind) {
  uint32_t x = 7, y = 1, s[3] = {1, 2, 3};
  (void)x; (void)y; (void)s;
  switch (kind) {
CASES
    default: want(false);
  }
}
void t_cpp() {
  Guard g;
  for (;;) {
    unsigned char i = t_next();
    if (i == 'r') { t_ev(i); g.ok = true; return; }
    // a call: 'k' and two digits
    int k = 10 * (t_next() - '0');
    k += t_next() - '0';
    t_ev('k');
    try { Guard in; make(k); in.ok = true; } catch (...) { t_ev('C'); }
    if (armed) want(false);
    t_ev('x');
  }
}
extern "C" void t_quiet();
int main() {
  t_quiet();
  rlimit none{0, 0};
  setrlimit(RLIMIT_CORE, &none);
  signal(SIGPIPE, SIG_IGN);
  std::string l;
  while (std::getline(std::cin, l)) {
    int p[2];
    if (pipe(p)) return 2;
    pid_t c = fork();
    if (c == 0) {
      close(p[0]);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 2);
      alarm(20);
      script = l; at = 0; fd = p[1];
      t_cpp();
      t_ev('.');
      _exit(0);
    }
    close(p[1]);
    std::string o;
    char b[256];
    for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) o.append(b, n);
    close(p[0]);
    int st;
    waitpid(c, &st, 0);
    std::cout << "=> " << o << " " << (WIFSIGNALED(st) ? "signal" : "exit") << " " << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << std::endl;
  }
}
