// Replays histories of evidence being merged: operations separated by ';'.
//   n R KIND LOC CROSS   R := partial from evidence (LOC 0: no location), answers "none" or the partial
//   m R S                merge S into R, answers the partial R
//   f R SOFT             conclusion from R
//   e SOFT K L ..        conclusion from the list of evidence given as KIND LOC CROSS triples
//   i SOFT K N ..        conclusion from counts
#include <iostream>
#include <sstream>
#include "nullability/inference/merge.h"
using namespace clang::tidy::nullability;
static Evidence make(int kind, int loc, int cross) {
  Evidence e;
  e.set_kind((Evidence::Kind)kind);
  if (loc) e.set_location("file.cc:" + std::to_string(loc));
  e.mutable_symbol()->set_usr("u"); e.set_slot(3);
  if (cross) e.set_crosses_from_test_to_nontest(true); else if (loc % 2) e.set_crosses_from_test_to_nontest(false);
  return e;
}
static std::string show(const SlotPartial& p) {
  std::ostringstream o;
  std::map<unsigned, unsigned> c(p.kind_count().begin(), p.kind_count().end());
  for (auto [k, n] : c) o << k << "*" << n << " ";
  o << "/";
  std::map<unsigned, const SlotPartial::SampleEvidence*> s;
  for (auto& [k, v] : p.kind_samples()) s[k] = &v;
  for (auto [k, v] : s) {
    o << " " << k << ":";
    for (auto& e : v->evidence()) o << (e.kind() == (int)k && !e.has_symbol() && !e.has_slot() ? "" : "?") << e.location().substr(8) << ",";
  }
  return o.str();
}
static std::string show(const SlotInference& i) {
  std::ostringstream o;
  o << (i.has_nullability() ? std::to_string(i.nullability()) : "none") << (i.conflict() ? " conflict" : "") << (i.trivial() ? " trivial" : "") << "/";
  for (auto& e : i.sample_evidence()) o << " " << e.kind() << ":" << e.location().substr(8);
  return o.str();
}
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::map<int, std::optional<SlotPartial>> r;
    std::string out, op;
    std::istringstream ops(line);
    while (std::getline(ops, op, ';')) {
      std::istringstream in(op);
      char k; int a, b, c, d; in >> k >> a;
      std::string res;
      if (k == 'n') { in >> b >> c >> d; r[a] = partialFromEvidence(make(b, c, d)); res = r[a] ? show(*r[a]) : "none"; }
      else if (k == 'm') { in >> b; mergePartials(*r[a], *r[b]); res = show(*r[a]); }
      else if (k == 'f') { in >> b; res = show(finalize(*r[a], b)); }
      else if (k == 'e') { std::vector<Evidence> v; while (in >> b >> c >> d) v.push_back(make(b, c, d)); res = show(mergeEvidence(v)); }
      else { std::array<unsigned, Evidence::Kind_MAX + 1> n = {}; while (in >> b >> c) n[b] = c; auto x = infer(n, a); res = std::to_string(x.Nullability) + (x.Conflict ? " conflict" : "") + (x.Trivial ? " trivial" : "") + "/"; }
      out += (out.empty() ? "" : ";") + res;
    }
    std::cout << "=> " << out << "\n";
  }
}
