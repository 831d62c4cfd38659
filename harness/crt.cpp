// Records the entry model functions generated for global constructors/destructors.
#include "phasar/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
using namespace psr;
using json = nlohmann::json;

int main(int, char **A) {
  json In = json::parse(std::ifstream(A[1])), Out = json::array();
  for (auto &P : In) {
    json Runs = json::array();
    for (auto &RJ : P["runs"]) {
      std::string Text = P["ir"], Bc;
      auto Load = std::make_unique<LLVMProjectIRDB>(llvm::MemoryBufferRef(Text, RJ["file"].get_ref<std::string &>()));
      if (!Load->isValid()) { std::cerr << Text; return 3; }
      if (RJ["form"] == "bc") {
        llvm::raw_string_ostream OS(Bc);
        llvm::WriteBitcodeToFile(*Load->getModule(), OS);
        OS.flush();
        Load = std::make_unique<LLVMProjectIRDB>(llvm::MemoryBufferRef(Bc, RJ["file"].get_ref<std::string &>()));
        if (!Load->isValid()) return 3;
      }
      auto &DB = *Load;
      std::set<const llvm::Function *> Known;
      std::map<const llvm::Instruction *, size_t> Ids;
      for (auto &F : *DB.getModule()) Known.insert(&F);
      for (auto *I : DB.getAllInstructions()) Ids[I] = DB.getInstructionId(I);
      std::vector<std::string> Ent = RJ["entries"];
      if (RJ["icfg"]) LLVMBasedICFG IC(&DB, CallGraphAnalysisType::NORESOLVE, Ent);
      else GlobalCtorsDtorsModel::buildModel(DB, Ent);
      json Gen = json::object(), Reach = json::array();
      bool Marked = true, IdsOk = true;
      for (auto &F : *DB.getModule()) {
        if (GlobalCtorsDtorsModel::isPhasarGenerated(F) == bool(Known.count(&F))) Marked = false, std::cerr << "mark " << F.getName().str() << "\n";
        if (F.isDeclaration() || Known.count(&F)) continue;
        std::map<const llvm::Instruction *, int> N;
        for (auto &I : llvm::instructions(F)) { int K = N.size() + 1; N[&I] = K; }
        json S = json::array();
        for (auto &I : llvm::instructions(F)) {
          if (DB.getInstruction(DB.getInstructionId(&I)) != &I) IdsOk = false;
          json T = {{"op", "other"}, {"fn", ""}, {"args", json::array()}, {"nx", json::array()}};
          if (llvm::isa<llvm::ReturnInst>(I)) T["op"] = "ret";
          else if (auto *C = llvm::dyn_cast<llvm::CallBase>(&I)) {
            T["op"] = "call";
            T["fn"] = C->getCalledFunction() ? C->getCalledFunction()->getName().str() : "?";
            for (auto &Op : C->args()) {
              auto *V = Op->stripPointerCasts();
              if (auto *Ar = llvm::dyn_cast<llvm::Argument>(V)) T["args"].push_back("$" + std::to_string(Ar->getArgNo()));
              else if (llvm::isa<llvm::GlobalValue>(V)) T["args"].push_back(V->getName().str());
              else if (llvm::isa<llvm::ConstantPointerNull>(V)) T["args"].push_back("null");
              else T["args"].push_back("?");
            }
          }
          if (I.isTerminator()) {
            for (auto *B : llvm::successors(I.getParent())) T["nx"].push_back(N[&B->front()]);
          } else T["nx"].push_back(N[I.getNextNode()]);
          S.push_back(T);
        }
        if (F.getName() == GlobalCtorsDtorsModel::ModelName) {
          std::set<const llvm::BasicBlock *> Seen;
          std::vector<const llvm::BasicBlock *> WL = {&F.getEntryBlock()};
          while (!WL.empty()) {
            auto *B = WL.back(); WL.pop_back();
            if (!Seen.insert(B).second) continue;
            for (auto &I : *B) Reach.push_back(N[&I]);
            for (auto *Q : llvm::successors(B)) WL.push_back(Q);
          }
        }
        Gen[F.getName().str()] = S;
      }
      for (auto [I, Id] : Ids) if (DB.getInstructionId(I) != Id || DB.getInstruction(Id) != I) IdsOk = false;
      json R = RJ;
      R["gen"] = Gen, R["reach"] = Reach, R["marked"] = Marked, R["idsok"] = IdsOk;
      R["valid"] = !llvm::verifyModule(*DB.getModule(), &llvm::errs());
      Runs.push_back(R);
    }
    json O = P;
    O["runs"] = Runs;
    O.erase("ir");
    Out.push_back(O);
  }
  std::ofstream(A[2]) << Out.dump();
}
