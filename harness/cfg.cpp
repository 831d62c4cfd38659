// Records every answer of the forward/backward CFGs for IR programs.
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/ControlFlow/SpecialMemberFunctionType.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/Support/MemoryBuffer.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <map>
using namespace psr;
using json = nlohmann::json;

using Inst = const llvm::Instruction *;
struct Ids {
  std::map<Inst, int> Id;
  std::vector<Inst> Is;
  Inst BRet = nullptr;
  int operator()(Inst I) const {
    auto It = Id.find(I);
    return It != Id.end() ? It->second : I && I == BRet ? 0 : -1;
  }
};
template <typename R> json ids(const Ids &N, R &&Rg) {
  json O = json::array();
  for (auto I : Rg) O.push_back(N(I));
  return O;
}
template <typename CFG> json record(const CFG &C, const llvm::Function *F, Ids &N, bool Fwd, bool HasBRet) {
  json O;
  if (HasBRet) {
    auto E = C.getExitPointsOf(F);
    N.BRet = E.size() == 1 ? E[0] : nullptr;
  }
  json S = json::array(), P = json::array(), St = json::array(), Ex = json::array(), Ca = json::array(), FL = json::array(), FS = json::array(), BT = json::array(), FT = json::array(), FO = json::array();
  for (auto I : N.Is) {
    S.push_back(ids(N, C.getSuccsOf(I)));
    P.push_back(ids(N, C.getPredsOf(I)));
    St.push_back(C.isStartPoint(I)), Ex.push_back(C.isExitInst(I)), Ca.push_back(C.isCallSite(I));
    FL.push_back(C.isFieldLoad(I)), FS.push_back(C.isFieldStore(I));
    FO.push_back(C.getFunctionOf(I) == F);
    json B = json::array(), T = json::array();
    for (auto J : N.Is) {
      if (C.isBranchTarget(I, J)) B.push_back(N(J));
      if (Fwd && C.isFallThroughSuccessor(I, J)) T.push_back(N(J));
    }
    BT.push_back(B), FT.push_back(T);
  }
  O = {{"succ", S}, {"pred", P}, {"start", St}, {"exit", Ex}, {"call", Ca}, {"fl", FL}, {"fs", FS}, {"bt", BT}, {"ft", FT}, {"fo", FO}};
  O["starts"] = ids(N, C.getStartPointsOf(F));
  O["exits"] = ids(N, C.getExitPointsOf(F));
  json E = json::array();
  for (auto [A, B] : C.getAllControlFlowEdges(F)) E.push_back({N(A), N(B)});
  O["edges"] = E;
  O["all"] = ids(N, C.getAllInstructionsOf(F));
  O["bsucc"] = json::array(), O["bpred"] = json::array(), O["bexit"] = false, O["bstart"] = false, O["bfun"] = true;
  if (HasBRet && N.BRet) {
    O["bsucc"] = ids(N, C.getSuccsOf(N.BRet));
    O["bpred"] = ids(N, C.getPredsOf(N.BRet));
    O["bexit"] = C.isExitInst(N.BRet), O["bstart"] = C.isStartPoint(N.BRet);
    O["bfun"] = C.getFunctionOf(N.BRet) == F;
  }
  N.BRet = nullptr;
  return O;
}

int main(int C, char **A) {
  json In = json::parse(std::ifstream(A[1])), Out = json::array();
  for (auto &P : In) {
    std::string Text = P["ir"];
    LLVMProjectIRDB DB(llvm::MemoryBufferRef(Text, "in"));
    if (!DB.isValid()) { std::cerr << Text; return 3; }
    json R = {{"funs", json::array()}};
    for (auto &FJ : P["funs"]) {
      std::string Name = FJ["name"];
      const auto *F = DB.getFunction(Name);
      Ids N;
      for (auto &I : llvm::instructions(F)) N.Is.push_back(&I), N.Id[&I] = N.Is.size();
      json O = FJ;
      O["n"] = N.Is.size();
      for (bool Ign : {true, false}) {
        LLVMBasedCFG Fw(Ign);
        LLVMBasedBackwardCFG Bw(Ign), BwR(DB, Ign);
        json M = {{"fw", record(Fw, F, N, true, false)}};
        M["bw"] = record(Bw, F, N, false, false);
        M["br"] = record(BwR, F, N, false, true);
        O[Ign ? "ign" : "dbg"] = M;
      }
      LLVMBasedCFG Fw;
      switch (Fw.getSpecialMemberFunctionType(F)) {
      case SpecialMemberFunctionType::None: O["sm"] = "none"; break;
      case SpecialMemberFunctionType::Constructor: O["sm"] = "ctor"; break;
      case SpecialMemberFunctionType::Destructor: O["sm"] = "dtor"; break;
      case SpecialMemberFunctionType::CopyAssignment: O["sm"] = "copy"; break;
      case SpecialMemberFunctionType::MoveAssignment: O["sm"] = "move"; break;
      }
      O["issm"] = Fw.isSpecialMemberFunction(F);
      O["fname"] = Fw.getFunctionName(F).str();
      json D = json::object();
      R["funs"].push_back(O);
    }
    Out.push_back(R);
  }
  std::ofstream(A[2]) << Out.dump();
}
