// The constants IDELinearConstantAnalysis reports on MiniIR programs.
#include "mini.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
using namespace mini;

int main(int, char **A) {
  return mainLoop(A, [](Prog &P) {
    json Out;
    LLVMBasedICFG IC(P.DB.get(), CallGraphAnalysisType::NORESOLVE, {"main"}, nullptr, nullptr, Soundness::Soundy, false);
    for (bool Edges : {false, true}) {
      IDELinearConstantAnalysis L(P.DB.get(), &IC, {"main"});
      L.getIFDSIDESolverConfig().setRecordEdges(Edges);
      IDESolver S(L, &IC);
      auto R = S.solve();
      json Fs = json::array();
      for (auto &C : P.Code) {
        json Is = json::array();
        for (auto *I : C) {
          json Row = json::array();
          for (auto &[D, V] : R.resultsAt(I, true)) {
            auto F = P.fact(D);
            // only values of this function's registers and of globals are facts here
            if (F.is_null()) continue;
            if (F[0] == "r" && funOf(D) != I->getFunction()) F[0] = "foreign";
            if (auto *N = std::get_if<int64_t>(&V)) {
              F.push_back(*N);
              Row.push_back(F);
            }
          }
          Is.push_back(Row);
        }
        Fs.push_back(Is);
      }
      Out[Edges ? "edges" : "plain"] = Fs;
    }
    return Out;
  });
}
