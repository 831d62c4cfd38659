// Records every answer of the forward/backward ICFGs and of their call graphs.
#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/ControlFlow/CallGraphData.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/Support/MemoryBuffer.h"
#include "nlohmann/json.hpp"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
using namespace psr;
using json = nlohmann::json;
using Inst = const llvm::Instruction *;

struct Ids {
  std::map<Inst, int> Id;
  const llvm::Function *F;
  // local position, 0 for an artificial return, -1 otherwise
  int operator()(Inst I) const {
    auto It = Id.find(I);
    if (It != Id.end()) return I->getFunction() == F ? It->second : -1;
    return !I ? -1 : 0;
  }
};
static std::map<Inst, std::string> G;
static std::string gid(Inst I) { auto It = G.find(I); return It == G.end() ? "unknown" : It->second; }
template <typename R> json ids(const Ids &N, R &&Rg) {
  json O = json::array();
  for (auto I : Rg) O.push_back(N(I));
  return O;
}
template <typename R> json gids(R &&Rg) {
  json O = json::array();
  for (auto I : Rg) O.push_back(gid(I));
  return O;
}
template <typename R> json names(R &&Rg) {
  json O = json::array();
  for (auto *F : Rg) O.push_back(F ? F->getName().str() : "null");
  return O;
}
template <typename ICFG> json callgraph(const ICFG &IC, const LLVMProjectIRDB &DB) {
  json O = json::object(), C = json::object(), E = json::object();
  for (auto *F : DB.getAllFunctions()) {
    C[F->getName().str()] = gids(IC.getCallersOf(F));
    json A = json::array();
    for (auto &I : llvm::instructions(F)) A.push_back(names(IC.getCalleesOfCallAt(&I)));
    E[F->getName().str()] = A;
  }
  O["callers"] = C, O["callees"] = E;
  return O;
}

int main(int, char **A) {
  json In = json::parse(std::ifstream(A[1])), Out = json::array();
  std::string Tmp = std::string(A[2]) + ".cg";
  int Via = 0;
  for (auto &P : In) {
    json Runs = json::array();
    for (auto &RJ : P["runs"]) {
      std::string Text = P["ir"];
      LLVMProjectIRDB DB(llvm::MemoryBufferRef(Text, "in"));
      if (!DB.isValid()) { std::cerr << Text; return 3; }
      std::set<std::string> Known;
      for (auto &F : P["funs"]) Known.insert(F["name"]);
      std::vector<std::string> Ent = RJ["entries"];
      LLVMTypeHierarchy TH(DB);
      LLVMBasedICFG IC(&DB, toCallGraphAnalysisType(RJ["cg"].get<std::string>()), Ent, RJ["th"] ? &TH : nullptr, LLVMAliasInfoRef(),
                       RJ["s"] == "Unsound" ? Soundness::Unsound : Soundness::Soundy, RJ["globals"].get<bool>());
      LLVMBasedBackwardICFG BW(&IC);
      G.clear();
      json R = RJ, Extra = json::array();
      Ids N;
      for (auto *F : DB.getAllFunctions()) {
        int K = 0;
        for (auto &I : llvm::instructions(F)) N.Id[&I] = ++K, G[&I] = F->getName().str() + "#" + std::to_string(K);
      }
      LLVMBasedCFG CF;
      LLVMBasedBackwardCFG BC;
      json Fs = json::object(), Order = json::array();
      for (auto *F : DB.getAllFunctions()) {
        N.F = F;
        std::string Name = F->getName().str();
        Order.push_back(Name);
        json S = json::array(), Pd = json::array(), Rs = json::array(), In = json::array(), Vi = json::array(), St = json::array(), Ex = json::array(), Bs = json::array(), Bp = json::array(), Br = json::array(), Ca = json::array(), Bi = json::array();
        json Stm = json::array();
        bool CfgSame = true;
        for (auto &I : llvm::instructions(F)) {
          S.push_back(ids(N, IC.getSuccsOf(&I))), Pd.push_back(ids(N, IC.getPredsOf(&I)));
          Rs.push_back(ids(N, IC.getReturnSitesOfCallAt(&I)));
          In.push_back(IC.isIndirectFunctionCall(&I)), Vi.push_back(IC.isVirtualFunctionCall(&I));
          St.push_back(IC.isStartPoint(&I)), Ex.push_back(IC.isExitInst(&I)), Ca.push_back(IC.isCallSite(&I));
          Bs.push_back(ids(N, BW.getSuccsOf(&I))), Bp.push_back(ids(N, BW.getPredsOf(&I))), Br.push_back(ids(N, BW.getReturnSitesOfCallAt(&I)));
          Bi.push_back({BW.isIndirectFunctionCall(&I), BW.isVirtualFunctionCall(&I), BW.isCallSite(&I), BW.isStartPoint(&I)});
          CfgSame &= IC.getSuccsOf(&I) == CF.getSuccsOf(&I) && IC.getPredsOf(&I) == CF.getPredsOf(&I) && IC.isExitInst(&I) == CF.isExitInst(&I);
          if (!Known.count(Name)) {
            auto *C = llvm::dyn_cast<llvm::CallBase>(&I);
            json Nx = json::array();
            if (I.isTerminator())
              for (auto *B : llvm::successors(I.getParent())) Nx.push_back(N(&B->front()));
            else Nx.push_back(N(I.getNextNode()));
            Stm.push_back({{"dbg", false}, {"call", C != nullptr}, {"exit", llvm::isa<llvm::ReturnInst>(I) ? "ret" : "no"},
                           {"to", !C ? "" : C->getCalledFunction() ? C->getCalledFunction()->getName().str() : "!ind"}, {"nx", Nx}});
          }
        }
        if (!Known.count(Name)) Extra.push_back({{"name", Name}, {"decl", F->isDeclaration()}, {"ext", F->hasExternalLinkage()}, {"st", Stm}, {"gen", IC.isPhasarGenerated(*F)}});
        json O = {{"succ", S}, {"pred", Pd}, {"rets", Rs}, {"ind", In}, {"virt", Vi}, {"start", St}, {"exit", Ex}, {"call", Ca}, {"bsucc", Bs}, {"bpred", Bp}, {"brets", Br}, {"bflags", Bi}};
        O["starts"] = ids(N, IC.getStartPointsOf(F)), O["exits"] = ids(N, IC.getExitPointsOf(F));
        O["bstarts"] = ids(N, BW.getStartPointsOf(F)), O["bexits"] = ids(N, BW.getExitPointsOf(F));
        O["calls"] = ids(N, IC.getCallsFromWithin(F)), O["bcalls"] = ids(N, BW.getCallsFromWithin(F));
        O["cfgsame"] = CfgSame && IC.getStartPointsOf(F) == CF.getStartPointsOf(F) && IC.getExitPointsOf(F) == CF.getExitPointsOf(F);
        O["get"] = IC.getFunction(Name) == F && BW.getFunction(Name) == F;
        Fs[Name] = O;
      }
      R["f"] = Fs, R["extra"] = Extra;
      R["allfuns"] = names(IC.getAllFunctions());
      R["nofun"] = !IC.getFunction("no such function") && !BW.getFunction("no such function");
      auto &CG = IC.getCallGraph();
      R["vf"] = names(CG.getAllVertexFunctions()), R["vcs"] = gids(CG.getAllVertexCallSites());
      R["nvf"] = CG.getNumVertexFunctions(), R["nvcs"] = CG.getNumVertexCallSites(), R["vf2"] = names(IC.getAllVertexFunctions());
      R["size"] = CG.size(), R["empty"] = CG.empty();
      R["cgraph"] = callgraph(IC, DB), R["cgbw"] = callgraph(BW, DB), R["cgown"] = callgraph(CG, DB);
      // stored and loaded again, through a string, a file or the json object
      std::string Js;
      {
        llvm::raw_string_ostream OS(Js);
        if (Via == 2) OS << IC.getAsJson().dump();
        else IC.printAsJson(OS);
      }
      CallGraphData CD;
      if (Via == 1) {
        std::ofstream(Tmp) << Js;
        CD = CallGraphData::deserializeJson(Tmp);
      } else CD = CallGraphData::loadJsonString(Js);
      Via = (Via + 1) % 3;
      LLVMBasedICFG Ld(&DB, CD);
      R["cgload"] = callgraph(Ld, DB);
      R["vfload"] = names(Ld.getCallGraph().getAllVertexFunctions());
      R["vcsload"] = gids(Ld.getCallGraph().getAllVertexCallSites());
      R["nload"] = {Ld.getCallGraph().size() == CG.size(), Ld.getCallGraph().empty() == CG.empty()};
      json NS = json::array();
      R["nonstart"] = gids(IC.allNonCallStartNodes()), R["bnonstart"] = gids(BW.allNonCallStartNodes());
      Runs.push_back(R);
    }
    json O = {{"funs", P["funs"]}, {"runs", Runs}};
    Out.push_back(O);
  }
  std::ofstream(A[2]) << Out.dump();
  std::remove(Tmp.c_str());
}
