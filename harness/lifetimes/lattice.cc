// Replays histories of operations on lattices, constraints, substitutions and symbol tables; operations
// are separated by ';'.  Lifetimes: s static, l and m locals, 1.. variables.  Objects: 1.. (object i has the
// lifetime given to it on the command line).
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "lifetime_analysis/lifetime_lattice.h"
#include "lifetime_annotations/lifetime_substitutions.h"
#include "lifetime_annotations/lifetime_symbol_table.h"
#include "lifetime_annotations/function_lifetimes.h"
#include "lifetime_annotations/pointee_type.h"
using namespace clang::tidy::lifetimes;
using clang::dataflow::LatticeJoinEffect;
static std::vector<std::string> args;
static const clang::FunctionDecl* decl;
struct World {
  std::map<std::string, Lifetime> byName;
  std::map<int, std::string> names;
  std::vector<std::unique_ptr<Object>> objects;
  std::map<const Object*, int> index;
  Lifetime lt(const std::string& n) {
    auto it = byName.find(n);
    if (it != byName.end()) return it->second;
    Lifetime l = n == "s" ? Lifetime::Static() : (n == "l" || n == "m") ? Lifetime::CreateLocal() : Lifetime::CreateVariable();
    names[l.Id()] = n;
    return byName.emplace(n, l).first->second;
  }
  std::string name(Lifetime l) { auto it = names.find(l.Id()); return it == names.end() ? "?" : it->second; }
  World(clang::QualType t) {
    for (auto& a : args) { objects.push_back(std::make_unique<Object>(lt(a), t, std::nullopt)); index[objects.back().get()] = objects.size(); }
  }
  const Object* obj(int i) { return objects[i - 1].get(); }
  ObjectSet set(const std::string& s) { ObjectSet r; if (s != "-") for (char c : s) r.Add(obj(c - '0')); return r; }
  std::string show(const ObjectSet& s) { std::set<int> v; for (auto* o : s) v.insert(index[o]); std::string r; for (int i : v) r += std::to_string(i); return r.empty() ? "-" : r; }
  std::string show(const LifetimeConstraints& c) {
    std::set<std::string> v;
    for (auto& [a, b] : c.AllConstraints()) v.insert(name(a) + "<" + name(b));
    std::string r; for (auto& x : v) r += x + " "; return r;
  }
  std::string show(const LifetimeLattice& l) {
    if (l.IsError()) return "error";
    std::map<int, std::string> p;
    for (auto& [o, s] : l.PointsTo().PointerPointsTos()) p[index[o]] = show(s);
    std::string r; for (auto& [i, s] : p) r += std::to_string(i) + ">" + s + " ";
    return r + "/" + show(l.Constraints()) + "/" + show(l.SingleValuedObjects());
  }
};
static void items(World& w, const ValueLifetimes& v, std::string& out) {
  if (v.Type().isNull() || PointeeType(v.Type()).isNull()) return;
  out += w.name(v.GetPointeeLifetimes().GetLifetime()) + " ";
  items(w, v.GetPointeeLifetimes().GetValueLifetimes(), out);
}
static std::string effect(LatticeJoinEffect e) { return e == LatticeJoinEffect::Changed ? "changed " : "same "; }
static std::string run(const std::string& line, clang::ASTContext& ast) {
  World w(ast.IntTy);
  std::map<int, LifetimeLattice> r;
  LifetimeSubstitutions sub;
  LifetimeSymbolTable tab;
  std::string out, op;
  std::istringstream ops(line);
  while (std::getline(ops, op, ';')) {
    std::istringstream in(op);
    char k; in >> k;
    std::string res, x, y; int a, b, c;
    switch (k) {
      case 'i': in >> a >> x; r[a] = LifetimeLattice(PointsToMap(), w.set(x)); res = w.show(r[a]); break;
      case 'f': in >> a; r[a] = LifetimeLattice("failed"); res = w.show(r[a]); break;
      case 's': in >> a >> b >> x; r[a].PointsTo().SetPointerPointsToSet(w.obj(b), w.set(x)); res = w.show(r[a]); break;
      case 'S': in >> a >> x >> y; r[a].PointsTo().SetPointerPointsToSet(w.set(x), w.set(y)); res = w.show(r[a]); break;
      case 'e': in >> a >> b >> x; r[a].PointsTo().ExtendPointerPointsToSet(w.obj(b), w.set(x)); res = w.show(r[a]); break;
      case 'c': in >> a >> x >> y; r[a].Constraints().AddOutlivesConstraint(w.lt(x), w.lt(y)); res = w.show(r[a]); break;
      case 'j': { in >> a >> b; auto e = r[a].join(r[b]); res = effect(e) + w.show(r[a]); break; }
      case 'J': { in >> a >> b; auto e = r[a].Constraints().join(r[b].Constraints()); res = effect(e) + w.show(r[a]); break; }
      case 'k': in >> a >> b; r[a] = r[b]; res = w.show(r[a]); break;
      case '=': in >> a >> b; res = (r[a] == r[b]) != (r[a] != r[b]) ? (r[a] == r[b] ? "equal" : "different") : "both"; break;
      case 'g': in >> a >> x; res = w.show(r[a].PointsTo().GetPointerPointsToSet(w.set(x))); break;
      case 'p': { in >> a >> x; std::set<int> v; for (auto* o : r[a].PointsTo().GetAllPointersWithLifetime(w.lt(x))) v.insert(w.index[o]); for (int i : v) res += std::to_string(i); break; }
      case 'o': { in >> a >> x; std::set<std::string> v; for (auto l : r[a].Constraints().GetOutlivingLifetimes(w.lt(x))) v.insert(w.name(l)); for (auto& i : v) res += i + " "; break; }
      case 'u': in >> x >> y; { ObjectSet p = w.set(x), q = w.set(y); res = w.show(p.Union(q)) + " " + w.show(p.Intersection(q)) + (p.Contains(q) ? " contains" : " -") + (p == q ? " equal" : " -"); } break;
      // constraints applied to the lifetimes of a function whose pointers have the lifetimes 1, 2, ..
      case 'A': {
        LifetimeConstraints cs;
        while (in >> x >> y) cs.AddOutlivesConstraint(w.lt(x), w.lt(y));
        int n = 0;
        auto fl = FunctionLifetimes::CreateForDecl(decl, FunctionLifetimeFactorySingleCallback([&](const clang::Expr*) { return w.lt(std::to_string(++n)); }));
        auto all = [&](std::string& to) { for (size_t i = 0; i < fl->GetNumParams(); ++i) items(w, fl->GetParamLifetimes(i), to); items(w, fl->GetReturnLifetimes(), to); };
        all(res);
        if (auto err = cs.ApplyToFunctionLifetimes(*fl)) { llvm::consumeError(std::move(err)); res = "error"; break; }
        all(res);
        break;
      }
      case '+': in >> x >> y; sub.Add(w.lt(x), w.lt(y)); [[fallthrough]];
      case '?': for (auto n : {"1", "2", "3", "4"}) res += w.name(sub.Substitute(w.lt(n))) + " "; res += w.name(sub.Substitute(w.lt("s"))); break;
      // names: the lifetime a new name gets is called like the name in upper case
      case 'D': { in >> x; Lifetime l = tab.LookupNameAndMaybeDeclare(x); if (!w.names.count(l.Id())) { w.names[l.Id()] = "'" + x; w.byName.emplace("'" + x, l); } res = w.name(l); break; }
      case 'L': { in >> x; auto l = tab.LookupName(x); res = l ? w.name(*l) : "none"; break; }
      case 'Q': { in >> x; auto n = tab.LookupLifetime(w.lt(x)); res = n ? n->str() : "none"; break; }
      case 'G': in >> x; res = tab.LookupLifetimeAndMaybeDeclare(w.lt(x)).str(); break;
      case 'N': in >> x >> y; tab.Add(x, w.lt(y)); res = "-"; break;
      case 'B': in >> x >> y; tab.Rebind(x, w.lt(y)); res = "-"; break;
    }
    out += (out.empty() ? "" : ";") + (res.empty() ? "-" : res);
  }
  return out;
}
struct Consumer : clang::ASTConsumer {
  void HandleTranslationUnit(clang::ASTContext& ast) override {
    for (auto* d : ast.getTranslationUnitDecl()->decls()) if (auto* f = clang::dyn_cast<clang::FunctionDecl>(d)) decl = f;
    std::string line;
    while (std::getline(std::cin, line)) std::cout << "=> " << run(line, ast) << std::endl;
  }
};
struct Action : clang::ASTFrontendAction {
  std::unique_ptr<clang::ASTConsumer> CreateASTConsumer(clang::CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int, char**) {
  args = {"1", "2", "s", "s", "l"};
  clang::tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), "int* f(int* a, int** b);", {"-fsyntax-only", "-std=c++17", "-w"}, "input.cc", "lattice");
}
