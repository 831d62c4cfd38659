// Shared by the harnesses that run phasar's client analyses on MiniIR programs.
#pragma once
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
namespace mini {
using namespace psr;
using json = nlohmann::json;

struct Prog {
  json J;
  std::string Text;
  std::unique_ptr<LLVMProjectIRDB> DB;
  std::vector<const llvm::Function *> Funs;
  std::map<const llvm::Value *, int> Reg;          // function-local register
  std::map<const llvm::Value *, int> Glob;         // global variable
  std::map<const llvm::Function *, int> FunIdx;
  std::vector<std::vector<const llvm::Instruction *>> Code;

  explicit Prog(const json &J) : J(J), Text(J["ir"]) {
    DB = std::make_unique<LLVMProjectIRDB>(llvm::MemoryBufferRef(Text, "prog.ll"));
    if (!DB->isValid()) {
      std::cerr << Text;
      exit(3);
    }
    for (auto &FJ : J["funs"]) {
      auto *F = DB->getModule()->getFunction(FJ["name"].get<std::string>());
      Funs.push_back(F);
      FunIdx[F] = Funs.size();
      Code.emplace_back();
      int N = 0;
      for (auto &A : F->args())
        Reg[&A] = ++N;
      for (auto &I : llvm::instructions(F)) {
        Reg[&I] = ++N;
        Code.back().push_back(&I);
      }
      if (Code.back().size() != FJ["code"].size()) {
        std::cerr << "model and IR differ\n" << Text;
        exit(3);
      }
    }
    int N = 0;
    for (auto &G : J["gnames"])
      Glob[DB->getModule()->getGlobalVariable(G.get<std::string>(), true)] = ++N;
  }
  // ["r", n] / ["g", n] or null
  json fact(const llvm::Value *V) const {
    if (auto It = Reg.find(V); It != Reg.end())
      return json::array({"r", It->second});
    if (auto It = Glob.find(V); It != Glob.end())
      return json::array({"g", It->second});
    return nullptr;
  }
};

inline const llvm::Function *funOf(const llvm::Value *V) {
  if (auto *I = llvm::dyn_cast<llvm::Instruction>(V)) return I->getFunction();
  if (auto *A = llvm::dyn_cast<llvm::Argument>(V)) return A->getParent();
  return nullptr;
}

template <typename Fn> int mainLoop(char **A, Fn F) {
  json In = json::parse(std::ifstream(A[1])), Out = json::array();
  size_t N = 0;
  for (auto &J : In) {
    std::cerr << "program " << ++N << "\n";
    Prog P(J);
    Out.push_back(F(P));
  }
  std::ofstream(A[2]) << Out.dump() << "\n";
  return 0;
}
} // namespace mini
