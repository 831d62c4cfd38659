// Edge functions of the LLVM-based IDE analyses, obtained from the analyses.
#include "edgefn.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLEVPKDFDescription.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/Support/MemoryBuffer.h"
using namespace psr;

struct Prog {
  std::string Text;
  std::unique_ptr<LLVMProjectIRDB> DB;
  std::unique_ptr<LLVMAliasSet> PT;
  std::unique_ptr<LLVMTypeHierarchy> TH;
  std::unique_ptr<LLVMBasedICFG> ICF;
  std::vector<const llvm::Instruction *> Is;
  const llvm::Function *Main;
  explicit Prog(std::string T) : Text(std::move(T)) {
    DB = std::make_unique<LLVMProjectIRDB>(llvm::MemoryBufferRef(Text, "in"));
    if (!DB->isValid()) throw std::runtime_error("IR\n" + Text);
    PT = std::make_unique<LLVMAliasSet>(DB.get());
    TH = std::make_unique<LLVMTypeHierarchy>(*DB);
    ICF = std::make_unique<LLVMBasedICFG>(DB.get(), CallGraphAnalysisType::OTF, std::vector<std::string>{"main"}, TH.get(), PT.get(), Soundness::Soundy, false);
    Main = DB->getFunctionDefinition("main");
    for (const auto &I : llvm::instructions(Main)) Is.push_back(&I);
  }
};
template <typename P> void common(Algebra<typename P::l_t> &Al, P &Pr) {
  Al.Join = [&Pr](auto A, auto B) { return Pr.join(A, B); };
  Al.Ext = [&Pr](const auto &A, const auto &B) { return Pr.extend(A, B); };
  Al.Com = [&Pr](const auto &A, const auto &B) { return Pr.combine(A, B); };
}

json runLCA(const json &S) {
  Prog G(S["ir"]);
  IDELinearConstantAnalysis Pr(G.DB.get(), G.ICF.get());
  Algebra<IDELinearConstantAnalysis::l_t> Al;
  common(Al, Pr);
  using FV = LatticeDomain<int64_t>;
  Al.Samples = {FV(Top{}), FV(0), FV(1), FV(-1), FV(2), FV(7), FV(-8), FV(Bottom{})};
  Al.Enc = [](const FV &V) { return V.isTop() ? enc("T", 0) : V.isBottom() ? enc("B", 0) : enc("V", V.assertGetValue()); };
  const llvm::Value *X = G.Main->getArg(0), *Z = Pr.getZeroValue();
  Al.leaf(EdgeIdentity<FV>{}, {{"k", "id"}});
  Al.leaf(Pr.allTopFunction(), {{"k", "top"}});
  for (const auto &L : S["leaves"]) {
    const llvm::Instruction *I = G.Is[L["i"].get<int>()], *N = I->getNextNode();
    std::string F = L["from_"];
    const llvm::Value *Succ = F == "store" ? I->getOperand(1) : I;
    Al.leaf(Pr.getNormalEdgeFunction(I, F == "x" ? X : Z, N, Succ), L);
  }
  Al.ops(S["ops"]);
  return Al.out("lca");
}

template <typename TSD> json runTS(const json &S, const char *Ty, const char *Factory, std::vector<int> States) {
  std::string IR = std::string("%") + Ty + " = type { i32 }\n";
  std::set<std::string> Fs;
  for (std::string C : S["calls"]) Fs.insert(C);
  std::string T = std::string("%") + Ty + "*";
  IR += "declare " + T + " @" + Factory + "()\n";
  auto Sig = [&](const std::string &C, bool Decl) {
    std::string A = Decl ? T : T + " %h";
    bool Second = C == "fputc" || C == "ungetc";
    return "@" + C + "(" + (Second ? std::string("i32 ") + (Decl ? "" : "1") + ", " + A : A) + ")";
  };
  for (auto &C : Fs) IR += "declare i32 " + Sig(C, true) + "\n";
  IR += "define i32 @main() {\nentry:\n  %p = alloca " + T + "\n  %h = call " + T + " @" + Factory + "()\n";
  for (std::string C : S["calls"]) IR += "  call i32 " + Sig(C, false) + "\n";
  IR += "  ret i32 0\n}\n";
  Prog G(IR);
  TSD D;
  IDETypeStateAnalysis<TSD> Pr(G.DB.get(), LLVMAliasInfoRef(G.PT.get()), &D, std::vector<std::string>{"main"});
  using L = typename IDETypeStateAnalysis<TSD>::l_t;
  Algebra<L> Al;
  common(Al, Pr);
  Al.Samples.push_back(D.top());
  for (int V : States) Al.Samples.push_back(L(V));
  Al.Samples.push_back(D.bottom());
  Al.Enc = [&](const L &V) { return V == D.top() ? enc("T", 0) : V == D.bottom() ? enc("B", 0) : enc("V", int(V)); };
  Al.leaf(EdgeIdentity<L>{}, {{"k", "id"}});
  Al.leaf(Pr.allTopFunction(), {{"k", "top"}});
  const llvm::Value *Z = Pr.getZeroValue();
  Al.leaf(Pr.getNormalEdgeFunction(G.Is[0], Z, G.Is[1], G.Is[0]), {{"k", "val"}, {"v", Al.Enc(D.uninit())}});
  auto CTR = [&](const llvm::Instruction *I, const llvm::Value *A, const llvm::Value *B) {
    llvm::SmallVector<const llvm::Function *, 1> Cs{llvm::cast<llvm::CallBase>(I)->getCalledFunction()};
    return Pr.getCallToRetEdgeFunction(I, A, I->getNextNode(), B, Cs);
  };
  Al.leaf(CTR(G.Is[1], Z, G.Is[1]), {{"k", "opaque"}});
  int Idx = 2;
  for (std::string C : S["calls"]) {
    (void)C;
    Al.leaf(CTR(G.Is[Idx], G.Is[1], G.Is[1]), {{"k", "opaque"}});
    ++Idx;
  }
  Al.ops(S["ops"]);
  return Al.out("ts");
}

json runIIA(const json &S) {
  // an instruction with the wanted edge fact: alloca (zero -> alloca: replace),
  // argument use at a call (arg -> arg: add labels)
  std::string IR = "declare void @use(i32*)\ndeclare i8* @malloc(i64)\ndefine i32 @main() {\nentry:\n  %p = alloca i32\n";
  int N = S["masks"].size();
  for (int I = 0; I < N; ++I)
    IR += S["kinds"][I] == "add" ? "  call void @use(i32* %p)\n" : "  %m" + std::to_string(I) + " = call i8* @malloc(i64 4)\n";
  IR += "  ret i32 0\n}\n";
  Prog G(IR);
  std::map<const llvm::Instruction *, int> Mask;
  for (int I = 0; I < N; ++I) Mask[G.Is[I + 1]] = S["masks"][I];
  using IIA = IDEInstInteractionAnalysisT<int, true>;
  IIA Pr(G.DB.get(), G.ICF.get(), LLVMAliasInfoRef(G.PT.get()), {"main"},
         [&](std::variant<const llvm::Instruction *, const llvm::GlobalVariable *> V) {
           std::set<int> R;
           if (auto *I = std::get_if<const llvm::Instruction *>(&V))
             for (int B = 0; B < 3; ++B) if (Mask[*I] >> B & 1) R.insert(B);
           return R;
         });
  using L = IIA::l_t;
  auto mk = [](int M) { BitVectorSet<int> R; for (int B = 0; B < 3; ++B) if (M >> B & 1) R.insert(B); return R; };
  Algebra<L> Al;
  common(Al, Pr);
  Al.Samples = {L(Top{})};
  for (int M = 0; M < 8; ++M) Al.Samples.push_back(L(mk(M)));
  Al.Samples.push_back(L(Bottom{}));
  Al.Enc = [](const L &V) {
    if (V.isTop()) return enc("T", 0);
    if (V.isBottom()) return enc("B", 0);
    int M = 0;
    for (int B : V.assertGetValue()) M |= 1 << B;
    return enc("V", M);
  };
  Al.leaf(EdgeIdentity<L>{}, {{"k", "id"}});
  Al.leaf(Pr.allTopFunction(), {{"k", "top"}});
  for (int I = 0; I < N; ++I) {
    const auto *In = G.Is[I + 1];
    llvm::SmallVector<const llvm::Function *, 1> Cs{llvm::cast<llvm::CallBase>(In)->getCalledFunction()};
    bool Add = S["kinds"][I] == "add";
    IDEIIAFlowFact P(G.Is[0]), R(In);
    auto F = Add ? Pr.getCallToRetEdgeFunction(In, P, In->getNextNode(), P, Cs)
                 : Pr.getCallToRetEdgeFunction(In, Pr.getZeroValue(), In->getNextNode(), R, Cs);
    json D = {{"k", Add ? "addset" : "val"}};
    D["v"] = Add ? json(S["masks"][I]) : enc("V", S["masks"][I].get<int>());
    Al.leaf(F, D);
  }
  // opposite orders only through extend/combine: second functions of 'extend' must not be all-bottom there
  Al.ops(S["ops"]);
  return Al.out("iia");
}

int main(int, char **argv) {
  json In = json::parse(std::ifstream(argv[1])), Out;
  Out["dags"] = json::array();
  for (auto &S : In["dags"]) {
    std::string F = S["fam"];
    if (F == "lca") Out["dags"].push_back(runLCA(S));
    else if (F == "ts" && S["tsd"] == "file") Out["dags"].push_back(runTS<CSTDFILEIOTypeStateDescription>(S, "struct._IO_FILE", "fopen", {0, 1, 2, 3}));
    else if (F == "ts") Out["dags"].push_back(runTS<OpenSSLEVPKDFDescription>(S, "struct.evp_kdf_st", "EVP_KDF_fetch", {0, 1, 2}));
    else if (F == "iia") Out["dags"].push_back(runIIA(S));
  }
  std::ofstream(argv[2]) << Out;
}
