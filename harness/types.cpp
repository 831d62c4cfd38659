// Answers of the type hierarchies and vtable providers, before and after storing and loading them.
#include "mini.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchyData.h"
#include "llvm/Demangle/Demangle.h"
#include <fstream>
#include <unistd.h>
using namespace mini;

static std::string fname(const llvm::Function *F) {
  if (!F) return "";
  auto M = F->getName();
  auto D = llvm::demangle(M.str());
  if (M.endswith("D0Ev")) D += "#D0";
  return D;
}
static json funs(const std::vector<const llvm::Function *> &V) {
  json R = json::array();
  for (auto *F : V) R.push_back(fname(F));
  return R;
}
template <class VT> static json table(const VT &T) {
  // every accessor must tell the same
  json R = json::object();
  auto All = T.getAllFunctions();
  R["fns"] = funs(All);
  bool Ok = All.size() == T.size() && T.empty() == All.empty() && T.getFunction(T.size()) == nullptr && T.getIndex(nullptr) == [&] {
    auto It = std::find(All.begin(), All.end(), nullptr);
    return It == All.end() ? -1 : int(It - All.begin());
  }();
  for (unsigned I = 0; I < All.size(); ++I) {
    Ok &= T.getFunction(I) == All[I] && *std::next(T.begin(), I) == All[I];
    Ok &= All[I] == nullptr || (T.getIndex(All[I]) >= 0 && unsigned(T.getIndex(All[I])) <= I && All[T.getIndex(All[I])] == All[I]);
  }
  R["ok"] = Ok;
  return R;
}

template <class T> static std::string key(T Ty);
template <> std::string key(const llvm::DIType *Ty) {
  auto *C = llvm::dyn_cast<llvm::DICompositeType>(Ty);
  return std::to_string(C ? C->getLine() : 0);
}
template <> std::string key(const llvm::StructType *Ty) { return Ty->getName().str(); }

template <class TH> static json answers(const TH &H) {
  json R;
  R["types"] = json::array();
  R["sub"] = json::array();
  R["misc"] = true;
  auto All = H.getAllTypes();
  bool Ok = H.size() == All.size() && H.empty() == All.empty();
  for (auto Ty : All) {
    R["types"].push_back(key(Ty));
    json S = json::array(), Q = json::array();
    for (auto Sub : H.getSubTypes(Ty)) S.push_back(key(Sub));
    for (auto Sub : All)
      if (H.isSubType(Ty, Sub)) Q.push_back(key(Sub));
    R["sub"].push_back(json::array({S, Q}));
    Ok &= H.hasType(Ty);
    auto N = H.getTypeName(Ty);
    R["names"].push_back(N.str());
    auto ByName = H.getType(N);
    R["byname"].push_back(ByName ? key(static_cast<decltype(Ty)>(ByName)) : "");
  }
  Ok &= H.getType("no such type") == nullptr;
  R["ok"] = Ok;
  return R;
}
static json di(const DIBasedTypeHierarchy &H) {
  auto R = answers(H);
  R["vt"] = json::array();
  for (auto &T : H.getAllVTables()) R["vt"].push_back(table(T));
  return R;
}
template <class TH> static std::string store(const TH &H) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  H.printAsJson(OS);
  return OS.str();
}

int main(int, char **A) {
  json In = json::parse(std::ifstream(A[1])), Out = json::array();
  std::string Tmp = std::string(A[2]) + ".json";
  for (auto &J : In) {
    std::cerr << "program " << Out.size() + 1 << "\n";
    json R;
    LLVMProjectIRDB DB(J["file"].get<std::string>());
    if (!DB.isValid()) return 3;
    {
      std::cerr << "step DI\n";
      DIBasedTypeHierarchy H(DB);
      R["DI"] = di(H);
      std::string Pr;
      llvm::raw_string_ostream OS(Pr);
      H.print(OS);
      H.printAsDot(OS);
      if (J["load"]) {
        std::cerr << "step DI load\n";
        auto S = store(H);
        DIBasedTypeHierarchy L(&DB, DIBasedTypeHierarchyData::loadJsonString(S));
        R["DIload"] = di(L);
        std::ofstream(Tmp) << store(L);
        DIBasedTypeHierarchy L2(&DB, DIBasedTypeHierarchyData::deserializeJson(Tmp));
        R["DIload2"] = di(L2);
      }
    }
    {
      std::cerr << "step LLVM\n";
      LLVMTypeHierarchy H(DB);
      R["LL"] = answers(H);
      LLVMTypeHierarchy HM(*DB.getModule());
      R["LLmod"] = answers(HM);
      std::string Pr;
      llvm::raw_string_ostream OS(Pr);
      H.print(OS);
      H.printAsDot(OS);
      LLVMVFTableProvider P(DB);
      json V = json::array();
      for (auto *T : H.getAllTypes()) {
        auto *VT = P.getVFTableOrNull(T);
        V.push_back(VT ? table(*VT) : json{{"fns", json::array()}, {"ok", false}});
        if (P.hasVFTable(T) != (VT != nullptr)) V.back()["ok"] = false;
      }
      R["LL"]["vt"] = V;
      if (J["load"]) {
        std::cerr << "step LLVM load\n";
        auto S = store(H);
        LLVMTypeHierarchy L(DB, LLVMTypeHierarchyData::loadJsonString(S));
        R["LLload"] = answers(L);
        std::ofstream(Tmp) << store(L);
        LLVMTypeHierarchy L2(DB, LLVMTypeHierarchyData::deserializeJson(Tmp));
        R["LLload2"] = answers(L2);
      }
    }
    Out.push_back(R);
  }
  unlink(Tmp.c_str());
  std::ofstream(A[2]) << Out.dump() << "\n";
}
