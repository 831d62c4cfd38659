// Answers of LLVMAliasSet for MiniIR programs, after histories of operations.
#include "mini.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSetData.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "llvm/IR/Constants.h"
#include <unistd.h>
using namespace mini;

struct Keys {
  std::vector<const llvm::Value *> V;
  std::map<const llvm::Value *, int> N;
  void add(const llvm::Value *X) {
    if (!N.emplace(X, V.size() + 1).second) return;
    V.push_back(X);
    if (auto *C = llvm::dyn_cast<llvm::ConstantExpr>(X))
      for (auto &Op : C->operands())
        if (Op->getType()->isPointerTy()) add(Op);
  }
};
// distinct lists of numbers, referred to by their (1-based) index
struct Pool {
  std::map<std::vector<int>, int> M;
  json L = json::array();
  int operator()(std::vector<int> X) {
    std::sort(X.begin(), X.end());
    auto [It, New] = M.emplace(X, M.size() + 1);
    if (New) L.push_back(X);
    return It->second;
  }
};

template <class AA> static json snapshot(AA &&A, const Keys &K, Pool &P) {
  json R;
  json Al = json::array(), Set = json::array(), Inter = json::array(), Intra = json::array();
  bool Ok = true;
  auto Nums = [&](const auto &S) {
    std::vector<int> X;
    for (auto *V : S) {
      auto It = K.N.find(V);
      X.push_back(It == K.N.end() ? 0 : It->second);
    }
    return P(std::move(X));
  };
  for (auto *V : K.V) {
    std::vector<int> Row;
    for (auto *W : K.V) {
      auto Res = A.alias(V, W);
      if (Res != AliasResult::NoAlias) Row.push_back(K.N.at(W));
    }
    Al.push_back(P(Row));
    auto S = A.getAliasSet(V);
    Set.push_back(Nums(*S));
    for (bool In : {false, true}) {
      auto Sites = A.getReachableAllocationSites(V, In);
      (In ? Intra : Inter).push_back(Nums(*Sites));
      for (auto *W : K.V) Ok &= A.isInReachableAllocationSites(V, W, In) == bool(Sites->count(W));
    }
  }
  R["al"] = Al, R["set"] = Set, R["inter"] = Inter, R["intra"] = Intra, R["ok"] = Ok;
  return R;
}

int main(int, char **A) {
  std::string Tmp = std::string(A[2]) + ".json";
  int Ret = mainLoop(A, [&](Prog &P) {
    Keys K;
    json Out;
    auto &DB = *P.DB;
    auto *M = DB.getModule();
    json Info = json::array();
    for (auto &G : M->globals()) K.add(&G);
    for (auto &F : *M) K.add(&F);
    for (auto &F : *M) {
      for (auto &X : F.args()) K.add(&X);
      for (auto &I : llvm::instructions(F)) {
        K.add(&I);
        for (auto &Op : I.operands())
          if (llvm::isa<llvm::ConstantExpr>(Op)) K.add(Op);
      }
    }
    std::map<const llvm::Function *, int> FN;
    for (auto &F : *M) FN.emplace(&F, FN.size() + 1);
    json RegKey = json::array(), FunKey = json::array(), GlobKey = json::array();
    for (auto *V : K.V) {
      auto *F = funOf(V);
      auto *C = llvm::dyn_cast<llvm::CallBase>(V);
      Info.push_back({{"name", [&] { std::string S; llvm::raw_string_ostream OS(S); V->printAsOperand(OS, false, M); return (F ? F->getName().str() + ":" : "") + OS.str(); }()}, {"ptr", V->getType()->isPointerTy() && !llvm::isa<llvm::ConstantPointerNull>(V)},
                      {"fn", F ? FN[F] : 0},
                      {"glob", llvm::isa<llvm::GlobalObject>(V)},
                      {"kind", llvm::isa<llvm::AllocaInst>(V) ? "alloca"
                               : llvm::isa<llvm::Argument>(V) ? "arg"
                               : C && C->getCalledFunction() && isHeapAllocatingFunction(C->getCalledFunction()) ? "heap"
                               : llvm::isa<llvm::Constant>(V) && !llvm::isa<llvm::GlobalValue>(V) ? "const" : "other"}});
    }
    for (size_t I = 0; I < P.Funs.size(); ++I) {
      json Row = json::array();
      auto *F = P.Funs[I];
      FunKey.push_back(K.N.at(F));
      for (auto &X : F->args()) Row.push_back(K.N.at(&X));
      for (auto &X : llvm::instructions(F)) Row.push_back(K.N.at(&X));
      RegKey.push_back(Row);
    }
    for (auto &G : P.J["gnames"]) GlobKey.push_back(K.N.at(M->getGlobalVariable(G.get<std::string>(), true)));
    Out["info"] = Info, Out["reg"] = RegKey, Out["fun"] = FunKey, Out["glob"] = GlobKey;
    Pool Po;
    auto PA = toAliasAnalysisType(P.J["pa"].get<std::string>());
    bool Lazy = P.J["lazy"];
    auto Fresh = [&] { return std::make_unique<LLVMAliasSet>(&DB, Lazy, PA); };
    {
      auto S = Fresh();
      Out["fresh"] = snapshot(*S, K, Po);
      auto S2 = Fresh();
      Out["viaref"] = snapshot(LLVMAliasInfoRef(S2.get()), K, Po);
    }
    json Hist = json::array();
    for (auto &H : P.J["hist"]) {
      auto Cur = Fresh(), Oth = Fresh();
      json Ops = json::array();
      for (auto &O : H) {
        std::string Op = O["op"];
        json R = O;
        std::cerr << "op " << Op << "\n";
        auto Key = [&](const char *N) { return K.V[O[N].get<size_t>() % K.V.size()]; };
        if (Op == "intro" || Op == "ointro" || Op == "ask") {
          R["a"] = K.N.at(Key("a")), R["b"] = K.N.at(Key("b"));
          if (Op == "intro") Cur->introduceAlias(Key("a"), Key("b"));
          else if (Op == "ointro") Oth->introduceAlias(Key("a"), Key("b"));
          else R["res"] = Cur->alias(Key("a"), Key("b")) != AliasResult::NoAlias;
        } else if (Op == "merge") {
          Cur->mergeWith(*Oth);
        } else if (Op == "snap") {
          R["snap"] = snapshot(*Cur, K, Po);
        } else if (Op == "osnap") {
          R["snap"] = snapshot(*Oth, K, Po);
        } else if (Op == "reload") {
          std::string S;
          llvm::raw_string_ostream OS(S);
          Cur->printAsJson(OS);
          OS.flush();
          // through a string, through a file
          json J = json::parse(S);
          if (O["via"] == 1) {
            std::ofstream(Tmp) << S;
            auto D = LLVMAliasSetData::deserializeJson(Tmp);
            std::string S2;
            llvm::raw_string_ostream OS2(S2);
            D.printAsJson(OS2);
            J = json::parse(OS2.str());
          } else if (O["via"] == 2) {
            J = LLVMAliasInfoRef(Cur.get()).getAsJson();
          }
          bool Same = Cur->isInterProcedural();
          Cur = std::make_unique<LLVMAliasSet>(&DB, J);
          R["same"] = Same == Cur->isInterProcedural() && Cur->getAliasAnalysisType() == PA;
        }
        Ops.push_back(R);
      }
      Hist.push_back(Ops);
    }
    Out["hist"] = Hist;
    Out["pool"] = Po.L;
    return Out;
  });
  unlink(Tmp.c_str());
  return Ret;
}
