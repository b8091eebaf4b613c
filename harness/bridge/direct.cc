#include <cstring>
#include <iostream>
#include <sstream>
#include <vector>
#include "rt.h"
void tk_reset(); long tk_live(); extern long tk_bad;
extern "C" {
void rs_init(); size_t rs_size(size_t); void* rs_make(size_t, uint64_t, uint64_t); void rs_show(size_t, void*);
void rs_encode(size_t, void*, unsigned char*); void* rs_decode(size_t, const unsigned char*); void rs_drop(size_t, void*);
}
static std::string rs_out;
extern "C" void vt_log(const char* p, size_t n) { rs_out.append(p, n); }
std::vector<vt::Ops*>& table();
struct Side {
  bool rust; size_t t;
  size_t size() { return rust ? rs_size(t) : table()[t]->size(); }
  void* make(uint64_t s, uint64_t b) { return rust ? rs_make(t, s, b) : table()[t]->make(s, b); }
  std::string show(void* p) { if (!rust) return table()[t]->show(p); rs_out.clear(); rs_show(t, p); return rs_out; }
  void encode(void* p, unsigned char* b) { rust ? rs_encode(t, p, b) : table()[t]->encode(p, b); }
  void* decode(const unsigned char* b) { return rust ? rs_decode(t, b) : table()[t]->decode(b); }
  void drop(void* p) { rust ? rs_drop(t, p) : table()[t]->drop(p); }
};
static std::string bytes(Side s, uint64_t seed, uint64_t bits) {
  size_t n = s.size();
  std::string a[2];
  for (int k = 0; k < 2; k++) {
    tk_reset();
    std::vector<unsigned char> b(n + 64, k ? 0x55 : 0xAA);
    void* p = s.make(seed, bits);
    s.encode(p, b.data());
    a[k].assign((char*)b.data(), n);
    s.drop(s.decode(b.data()));
  }
  std::string o;
  char x[4];
  for (size_t i = 0; i < n; i++)
    if (a[0][i] == a[1][i]) { snprintf(x, 4, "%02x", (unsigned char)a[0][i]); o += x; } else o += "..";
  return o;
}
int main() {
  rs_init();
  std::string l;
  while (std::getline(std::cin, l)) {
    std::istringstream in(l);
    size_t t; uint64_t seed, bits; std::string path;
    in >> t >> seed >> bits >> path;
    Side cur{path[0] == 'r', t};
    std::string out, fail;
    tk_reset();
    void* p = cur.make(seed, bits);
    out += cur.show(p) + "|";
    for (size_t i = 1; i < path.size(); i++) {
      Side nxt{path[i] == 'r', t};
      size_t n = cur.size();
      std::vector<unsigned char> b(n + 128, 0xEE);
      cur.encode(p, b.data() + 64);
      for (size_t k = 0; k < 64; k++) if (b[k] != 0xEE || b[n + 64 + k] != 0xEE) fail = "wrote outside its buffer";
      p = nxt.decode(b.data() + 64);
      cur = nxt;
      out += cur.show(p) + "|";
    }
    long before = tk_live();
    cur.drop(p);
    long bad = tk_bad, after = tk_live(), obj = vt::objects;
    std::cout << "=> " << out << " " << (fail.empty() ? "ok" : "overrun") << " " << before << " " << after << " " << bad << " " << obj << " ";
    std::cout << Side{true, t}.size() << " " << Side{false, t}.size() << " " << bytes({true, t}, seed, bits) << " " << bytes({false, t}, seed, bits) << "." << std::endl;
  }
}
