// The leaks IFDSTaintAnalysis reports on MiniIR programs.
#include "mini.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
using namespace mini;

int main(int, char **A) {
  return mainLoop(A, [](Prog &P) {
    TaintConfigData D;
    for (auto &C : P.J["config"]) {
      FunctionData F;
      F.Name = C["name"];
      if (C["rsrc"]) F.ReturnCat = TaintCategory::Source;
      for (int N : C["src"]) F.SourceValues.push_back(N - 1);
      for (int N : C["snk"]) F.SinkValues.push_back(N - 1);
      for (int N : C["san"]) F.SanitizerValues.push_back(N - 1);
      D.Functions.push_back(F);
    }
    LLVMTaintConfig TC(*P.DB, D);
    LLVMAliasSet AS(P.DB.get());
    LLVMBasedICFG IC(P.DB.get(), CallGraphAnalysisType::OTF, {"main"}, nullptr, &AS, Soundness::Soundy, false);
    IFDSTaintAnalysis T(P.DB.get(), &AS, &TC, {"main"});
    IFDSSolver S(T, &IC);
    S.solve();
    json Fs = json::array();
    for (auto &C : P.Code) {
      json Is = json::array();
      for (auto *I : C) {
        json Row = json::array();
        if (auto It = T.Leaks.find(I); It != T.Leaks.end())
          for (auto *D : It->second) {
            auto F = P.fact(D);
            if (F.is_null()) F = json::array({"foreign", 0});
            Row.push_back(F);
          }
        Is.push_back(Row);
      }
      Fs.push_back(Is);
    }
    return Fs;
  });
}
