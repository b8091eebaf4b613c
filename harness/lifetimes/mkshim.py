import os,sys
H="/usr/lib/llvm-18/include"; D=sys.argv[1]
def put(p,t):
    f=f"{D}/{p}"; os.makedirs(os.path.dirname(f),exist_ok=True)
    if not os.path.exists(f) or open(f).read()!=t: open(f,"w").write(t)
def patch(p,*subs):
    t=open(f"{H}/{p}").read()
    for a,b in subs:
        assert t.count(a)>=1,(p,a); t=t.replace(a,b,1)
    put(p,t)
put("clang/AST/NestedNameSpecifierBase.h",'#include "clang/AST/NestedNameSpecifier.h"\n')
put("clang/Analysis/FlowSensitive/AdornedCFG.h",'#include "clang/Analysis/FlowSensitive/ControlFlowContext.h"\nnamespace clang::dataflow { using AdornedCFG = ControlFlowContext; }\n')
put("clang/UnifiedSymbolResolution/USRGeneration.h",'#include "clang/Index/USRGeneration.h"\n')
patch("clang/AST/Type.h",("class alignas(TypeAlignment) Type : public ExtQualsTypeCommonBase {\npublic:\n","class NestedNameSpecifierCompat;\nclass alignas(TypeAlignment) Type : public ExtQualsTypeCommonBase {\npublic:\n  inline NestedNameSpecifierCompat getPrefix() const;\n"))
patch("clang/AST/TypeLoc.h",("class TypeLoc {\nprotected:","class TypeLoc {\npublic:\n  inline NestedNameSpecifierLoc getPrefix() const;\nprotected:"))
patch("clang/AST/NestedNameSpecifier.h",("  TypeLoc getTypeLoc() const;\n","  TypeLoc getTypeLoc() const;\n  inline TypeLoc getAsTypeLoc() const;\n"))
patch("clang/AST/DeclTemplate.h",("  TypeSourceInfo *getTypeAsWritten() const {","  inline const ASTTemplateArgumentListInfo *getTemplateArgsAsWritten() const { return nullptr; }\n  TypeSourceInfo *getTypeAsWritten() const {"))
patch("clang/Basic/Builtins.h",("  llvm::StringRef getName(unsigned ID) const { return getRecord(ID).Name; }","  __attribute__((always_inline)) std::string getName(unsigned ID) const { return getRecord(ID).Name.str(); }"))
put("compat.h",r'''
#pragma once
#include <unordered_map>
#include "clang/AST/ASTContext.h"
#include "clang/AST/Type.h"
#include "clang/AST/TypeLoc.h"
#include "clang/AST/NestedNameSpecifier.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/ASTMatchers/ASTMatchers.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Analysis/FlowSensitive/TypeErasedDataflowAnalysis.h"
#include "clang/Analysis/FlowSensitive/DataflowAnalysis.h"
#include "llvm/ADT/DenseMap.h"
namespace clang {
class NestedNameSpecifierCompat {
 public:
  enum class Kind { Null, Type, Other };
  const NestedNameSpecifier* p = nullptr;
  explicit operator bool() const { return p != nullptr; }
  Kind getKind() const { return !p ? Kind::Null : p->getAsType() ? Kind::Type : Kind::Other; }
  const class Type* getAsType() const { return p->getAsType(); }
};
inline NestedNameSpecifierCompat Type::getPrefix() const {
  if (auto* e = llvm::dyn_cast<ElaboratedType>(this)) return {e->getQualifier()};
  return {};
}
inline NestedNameSpecifierLoc TypeLoc::getPrefix() const {
  if (auto e = getAs<ElaboratedTypeLoc>()) return e.getQualifierLoc();
  return {};
}
inline TypeLoc NestedNameSpecifierLoc::getAsTypeLoc() const { return getTypeLoc(); }
}
#define NestedNameSpecifier NestedNameSpecifierCompat
// Newer versions of DenseMap need no sentinel keys.
namespace clang::tidy::lifetimes { class ObjectLifetimes; class ValueLifetimes; }
namespace llvm {
template <class K, class V> struct NoSentinelMap {
  struct Hash { size_t operator()(const K& k) const { return DenseMapInfo<K>::getHashValue(k); } };
  struct Eq { bool operator()(const K& a, const K& b) const { return DenseMapInfo<K>::isEqual(a, b); } };
  struct Item : std::pair<const K, V> { };
  std::unordered_map<K, V, Hash, Eq> m;
  auto begin() { return m.begin(); } auto end() { return m.end(); }
  auto begin() const { return m.begin(); } auto end() const { return m.end(); }
  auto find(const K& k) { return m.find(k); } auto find(const K& k) const { return m.find(k); }
  V& operator[](const K& k) { return m[k]; }
  template <class P> auto insert(P&& p) { return m.insert(std::forward<P>(p)); }
  template <class... A> auto try_emplace(const K& k, A&&... a) { return m.try_emplace(k, std::forward<A>(a)...); }
  bool contains(const K& k) const { return m.count(k); } size_t count(const K& k) const { return m.count(k); }
  bool empty() const { return m.empty(); } size_t size() const { return m.size(); }
  V lookup(const K& k) const { auto i = m.find(k); return i == m.end() ? V() : i->second; }
};
template <class V> struct DenseMap<clang::tidy::lifetimes::ObjectLifetimes, V, DenseMapInfo<clang::tidy::lifetimes::ObjectLifetimes>, detail::DenseMapPair<clang::tidy::lifetimes::ObjectLifetimes, V>> : NoSentinelMap<clang::tidy::lifetimes::ObjectLifetimes, V> {};
template <class V> struct DenseMap<clang::tidy::lifetimes::ValueLifetimes, V, DenseMapInfo<clang::tidy::lifetimes::ValueLifetimes>, detail::DenseMapPair<clang::tidy::lifetimes::ValueLifetimes, V>> : NoSentinelMap<clang::tidy::lifetimes::ValueLifetimes, V> {};
}
''')
