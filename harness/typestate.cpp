// File-handle states IDETypeStateAnalysis reports at the statements (source lines) of C programs.
#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Support/MemoryBuffer.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
using namespace psr;
using json = nlohmann::json;

// pairs of variables of one function whose contents the alias information relates, as {function: [[a, b]]}
static json confused(LLVMProjectIRDB &DB, LLVMAliasSet &PT) {
  json Ret = json::object();
  for (auto *F : DB.getAllFunctions()) {
    std::map<const llvm::AllocaInst *, std::set<const llvm::Value *>> Vals;
    for (auto &I : llvm::instructions(F)) {
      const llvm::Value *P = nullptr, *V = nullptr;
      if (auto *L = llvm::dyn_cast<llvm::LoadInst>(&I)) P = L->getPointerOperand(), V = L;
      if (auto *S = llvm::dyn_cast<llvm::StoreInst>(&I)) P = S->getPointerOperand(), V = S->getValueOperand();
      if (auto *A = llvm::dyn_cast_or_null<llvm::AllocaInst>(P))
        if (A->getAllocatedType()->isPointerTy()) Vals[A].insert(V);
    }
    for (auto &[A, VA] : Vals)
      for (auto *V : VA) {
        auto Set = PT.getAliasSet(V);
        for (auto &[B, VB] : Vals)
          for (auto *W : VB)
            if (A != B && Set->count(W)) {
              Ret[F->getName().str()].push_back({A->getName().str(), B->getName().str()});
              break;
            }
      }
  }
  return Ret;
}

int main(int, char **A) {
  json In = json::parse(std::ifstream(A[1])), Out = json::array();
  int No = 0;
  for (auto &P : In) {
    std::cerr << "program " << ++No << "\n";
    std::string Text = P["ir"];
    LLVMProjectIRDB DB(llvm::MemoryBufferRef(Text, "in"));
    if (!DB.isValid()) return 3;
    LLVMTypeHierarchy TH(DB);
    LLVMAliasSet PT(&DB);
    LLVMBasedICFG IC(&DB, toCallGraphAnalysisType(P["cg"].get<std::string>()), {"main"}, &TH, &PT);
    CSTDFILEIOTypeStateDescription D;
    IDETypeStateAnalysis<CSTDFILEIOTypeStateDescription> TS(&DB, &PT, &D, {"main"});
    IDESolver S(TS, &IC);
    auto R = S.solve();
    json O = json::object();
    for (auto *F : DB.getAllFunctions())
      for (auto &I : llvm::instructions(F)) {
        if (llvm::isa<llvm::AllocaInst>(I) || llvm::isa<llvm::BranchInst>(I) || llvm::isa<llvm::DbgInfoIntrinsic>(I) || !I.getDebugLoc()) continue;
        auto L = std::to_string(I.getDebugLoc().getLine());
        if (O.count(L)) continue;
        json Row = json::object();
        for (auto &[V, St] : R.resultsAt(&I, true))
          if (V->hasName() && llvm::isa<llvm::AllocaInst>(V) && llvm::cast<llvm::AllocaInst>(V)->getFunction() == F) Row[V->getName().str()] = to_string(St).str();
        O[L] = Row;
      }
    Out.push_back({{"states", O}, {"confused", confused(DB, PT)}});
  }
  std::ofstream(A[2]) << Out.dump();
}
