// The uses of uninitialized variables IFDSUninitializedVariables reports on MiniIR programs.
#include "mini.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
using namespace mini;

int main(int, char **A) {
  return mainLoop(A, [](Prog &P) {
    LLVMAliasSet AS(P.DB.get());
    LLVMBasedICFG IC(P.DB.get(), CallGraphAnalysisType::OTF, {"main"}, nullptr, &AS, Soundness::Soundy, false);
    IFDSUninitializedVariables U(P.DB.get(), {"main"});
    IFDSSolver S(U, &IC);
    S.solve();
    auto &R = U.getAllUndefUses();
    json Fs = json::array();
    for (auto &C : P.Code) {
      json Is = json::array();
      for (auto *I : C) {
        json Row = json::array();
        if (auto It = R.find(I); It != R.end())
          for (auto *D : It->second) {
            auto F = P.fact(D);
            if (F.is_null()) F = json::array({llvm::isa<llvm::UndefValue>(D) ? "u" : "foreign", 0});
            if (F[0] == "r" && funOf(D) != I->getFunction()) F[0] = "foreign";
            Row.push_back(F);
          }
        Is.push_back(Row);
      }
      Fs.push_back(Is);
    }
    return Fs;
  });
}
