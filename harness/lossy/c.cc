#include <ostream>
#include <string_view>
#include "support/internal/fmt.h"
#include "support/rs_std/lossy_formatter_for_bindings.h"
using lossy_formatter::LossyFormatter;
extern "C" int64_t c_op(LossyFormatter* f, int op, const uint8_t* d, size_t n) {
  switch (op) {
    case 0: return f->write_bytes(n ? (const char*)d : nullptr, n);
    case 1: return f->write_byte(*d);
    case 2: return f->write_fill(n, n ? *d : 0x41);
    default: return f->flush();
  }
}
struct Ops { const int* ops; const size_t* lens; const uint8_t* data; size_t n; };
struct A : Ops {};
struct B : Ops {};
template <class S> void AbslStringify(S& s, const A& a) {
  const char* d = (const char*)a.data;
  for (size_t i = 0; i < a.n; i++) {
    if (a.ops[i] == 1) s.Append(1, *d);
    else if (a.ops[i] == 2) s.Append(a.lens[i], a.lens[i] ? *d : 'A');
    else if (a.lens[i] % 2) AbslFormatFlush(&s, std::string_view(d, a.lens[i]));
    else s.Append(std::string_view(d, a.lens[i]));
    d += a.lens[i];
  }
}
std::ostream& operator<<(std::ostream& o, const B& a) {
  const char* d = (const char*)a.data;
  for (size_t i = 0; i < a.n; i++) {
    if (a.ops[i] == 0) o.write(d, a.lens[i]);
    else if (a.ops[i] == 3) o.flush();
    else for (size_t k = 0; k < a.lens[i]; k++) o.put(d[k]);
    d += a.lens[i];
  }
  return o;
}
extern "C" bool c_fmt(LossyFormatter* f, int kind, const int* ops, const size_t* lens, const uint8_t* data, size_t n) {
  Ops o{ops, lens, data, n};
  if (kind) return crubit::Fmt(B{o}, *f);
  return crubit::Fmt(A{o}, *f);
}
