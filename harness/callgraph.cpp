// The callees every call-graph algorithm reports for the call sites of generated C++ programs.
#include "mini.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/IntrinsicInst.h"
using namespace mini;

static std::string name(const llvm::Function *F) {
  auto M = F->getName().str();
  auto D = llvm::demangle(M);
  // free functions without their parameter list
  if (D.find("::") == std::string::npos || D.find('(') < D.find("::"))
    D = D.substr(0, D.find('('));
  if (llvm::StringRef(M).endswith("D0Ev")) D += "#D0";
  return D;
}

int main(int, char **A) {
  json In = json::parse(std::ifstream(A[1])), Out = json::array();
  for (auto &J : In) {
    std::cerr << "program " << Out.size() + 1 << "\n";
    json R;
    for (auto *Alg : {"CHA", "RTA", "OTF", "CHAnoTH", "OTFbuild"}) {
      LLVMProjectIRDB DB(J["file"].get<std::string>());
      if (!DB.isValid()) return 3;
      std::string AN = Alg;
      auto Ty = AN.substr(0, 3) == "CHA" ? CallGraphAnalysisType::CHA : AN == "RTA" ? CallGraphAnalysisType::RTA : CallGraphAnalysisType::OTF;
      LLVMTypeHierarchy TH(DB);
      std::optional<LLVMAliasSet> PT;
      std::unique_ptr<LLVMBasedICFG> IC;
      if (AN == "OTFbuild") {
        LLVMVFTableProvider VTP(DB);
        auto CG = buildLLVMBasedCallGraph(DB, Ty, {std::string("main")}, TH, VTP);
        IC = std::make_unique<LLVMBasedICFG>(std::move(CG), &DB);
      } else {
        if (Ty == CallGraphAnalysisType::OTF) PT.emplace(&DB);
        IC = std::make_unique<LLVMBasedICFG>(&DB, Ty, std::vector<std::string>{"main"}, AN == "CHAnoTH" ? nullptr : &TH,
                                             PT ? LLVMAliasInfoRef(&*PT) : LLVMAliasInfoRef(), Soundness::Soundy, false);
      }
      json L = json::object();
      for (auto *F : DB.getAllFunctions())
        for (auto &I : llvm::instructions(F)) {
          auto *CB = llvm::dyn_cast<llvm::CallBase>(&I);
          if (!CB || llvm::isa<llvm::IntrinsicInst>(CB) || !I.getDebugLoc()) continue;
          json N = json::array();
          for (auto *T : IC->getCalleesOfCallAt(&I)) N.push_back(name(T));
          auto K = std::to_string(I.getDebugLoc().getLine());
          L[K].push_back(json::array({CB->getCalledFunction() ? name(CB->getCalledFunction()) : "", N}));
        }
      R[AN] = L;
    }
    Out.push_back(R);
  }
  std::ofstream(A[2]) << Out.dump() << "\n";
}
