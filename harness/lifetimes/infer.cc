// Reads translation units (terminated by a line "END") and prints, for every function, the lifetimes
// inferred for it: one line "<function> <item>,<item>,..;<item>.." (parameters, then the return type),
// an item per level of pointer: s static, l local, or the number of the variable in order of appearance.
#include <iostream>
#include <map>
#include <sstream>
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "lifetime_analysis/analyze.h"
#include "lifetime_annotations/lifetime_annotations.h"
#include "lifetime_annotations/pointee_type.h"
using namespace clang::tidy::lifetimes;
struct Namer {
  std::map<int, int> ids;
  std::string operator()(Lifetime l) {
    if (l == Lifetime::Static()) return "s";
    if (l.IsLocal()) return "l";
    return std::to_string(ids.emplace(l.Id(), (int)ids.size() + 1).first->second);
  }
  void items(const ValueLifetimes& v, std::string& out) {
    if (v.Type().isNull()) return;
    if (PointeeType(v.Type()).isNull()) return;
    const ObjectLifetimes& o = v.GetPointeeLifetimes();
    out += (*this)(o.GetLifetime());
    items(o.GetValueLifetimes(), out);
  }
};
struct Consumer : clang::ASTConsumer {
  std::shared_ptr<LifetimeAnnotationContext> ctx;
  void HandleTranslationUnit(clang::ASTContext& ast) override {
    if (ast.getDiagnostics().hasUncompilableErrorOccurred()) { std::cout << "COMPILE\n"; return; }
    auto r = AnalyzeTranslationUnit(ast.getTranslationUnitDecl(), *ctx, {}, nullptr);
    for (const auto& [f, le] : r) {
      std::string o = f->getNameAsString() + " ";
      if (auto* e = std::get_if<FunctionAnalysisError>(&le)) o += "ERROR " + e->message;
      else {
        const auto& l = std::get<FunctionLifetimes>(le);
        Namer n;
        for (size_t i = 0; i < l.GetNumParams(); ++i) { n.items(l.GetParamLifetimes(i), o); if (i + 1 < l.GetNumParams()) o += ","; }
        o += ";";
        n.items(l.GetReturnLifetimes(), o);
      }
      std::cout << o << "\n";
    }
  }
};
struct Action : clang::ASTFrontendAction {
  std::unique_ptr<clang::ASTConsumer> CreateASTConsumer(clang::CompilerInstance& c, llvm::StringRef) override {
    auto r = std::make_unique<Consumer>();
    r->ctx = std::make_shared<LifetimeAnnotationContext>();
    AddLifetimeAnnotationHandlers(c.getPreprocessor(), r->ctx);
    return r;
  }
};
int main() {
  std::string line, code;
  while (std::getline(std::cin, line)) {
    if (line != "END") { code += line + "\n"; continue; }
    clang::tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), code, {"-fsyntax-only", "-std=c++17", "-w"}, "input.cc", "infer");
    std::cout << "END" << std::endl;
    code.clear();
  }
}
