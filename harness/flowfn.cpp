// Flow-function building blocks, LLVM fact mappers, the flow/edge function
// cache and initial seeds: evaluates them on instances and records the answers.
#include "toy.h"
#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/DataFlow/IfdsIde/InitialSeeds.h"
#include "phasar/DataFlow/IfdsIde/Solver/FlowEdgeFunctionCache.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/Domain/LLVMAnalysisDomain.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/Support/MemoryBuffer.h"
#include <unordered_set>
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
using namespace psr;
using json = nlohmann::json;

static const int K = 5;
template <typename D> D mk(int I);
template <> int mk<int>(int I) { return I; }
template <> std::string mk<std::string>(int I) { return std::string(1, 'a' + I) + "-a-fact-that-is-long-enough-to-be-on-the-heap"; }
inline int un(int I) { return I; }
inline int un(const std::string &S) { return S.empty() ? 99 : S[0] - 'a'; }

template <typename D, typename C> struct Dag {
  using FF = FlowFunction<D, C>;
  using P = std::shared_ptr<FF>;
  struct T : FlowFunctionTemplates<D, C> {} Tm;
  std::vector<P> Fs;
  static C set(const json &J) {
    C R;
    for (int I : J) R.insert(mk<D>(I));
    return R;
  }
  static auto pred(const json &J) {
    std::set<int> S;
    for (int I : J) S.insert(I);
    return [S](const D &X) { return S.count(un(X)) > 0; };
  }
  P build(const json &N) {
    std::string O = N["k"];
    auto A = [&] { return mk<D>(N["a"].get<int>()); };
    auto B = [&] { return mk<D>(N["b"].get<int>()); };
    auto V = [&] {
      std::vector<D> R;
      for (int I : N["s"]) R.push_back(mk<D>(I));
      return R;
    };
    bool LV = N["a"].get<int>() % 2; // pass ranges as lvalue/rvalue/container
    if (O == "id") return Tm.identityFlow();
    if (O == "lambda") {
      std::vector<C> Rel;
      for (auto &R : N["rel"]) Rel.push_back(set(R));
      return Tm.lambdaFlow([Rel](D X) { return Rel[un(X)]; });
    }
    if (O == "gen") return Tm.generateFlow(A(), B());
    if (O == "genif") return Tm.generateFlowIf(A(), pred(N["s"]));
    if (O == "genmany") {
      if (LV) { auto L = V(); auto R = Tm.generateManyFlows(L, B()); return R; }
      return Tm.generateManyFlows(set(N["s"]), B());
    }
    if (O == "kill") return Tm.killFlow(A());
    if (O == "killif") return Tm.killFlowIf(pred(N["s"]));
    if (O == "killmany") {
      if (LV) { auto L = V(); return Tm.killManyFlows(L); }
      return Tm.killManyFlows(set(N["s"]));
    }
    if (O == "killall") return Tm.killAllFlows();
    if (O == "genkill") return Tm.generateFlowAndKillAllOthers(A(), B());
    if (O == "genmanykill") {
      if (LV) { auto L = V(); return Tm.generateManyFlowsAndKillAllOthers(L, B()); }
      return Tm.generateManyFlowsAndKillAllOthers(set(N["s"]), B());
    }
    if (O == "transfer") return Tm.transferFlow(A(), B());
    if (O == "union") return Tm.unionFlows(Fs[N["f"].get<int>() - 1], Fs[N["g"].get<int>() - 1]);
    if (O == "unionc") return Tm.unionFlows(Tm.generateFlow(A(), B()), Tm.killFlow(B()));
    if constexpr (std::is_same_v<C, std::set<D>>) {
      std::string L = N.value("legacy", "");
      if (O == "zeroed") return std::make_shared<ZeroedFlowFunction<D, C>>(Fs[N["f"].get<int>() - 1], A());
      if (O == "Compose" || O == "compose") {
        std::vector<P> Ps;
        for (int I : N["fs"]) Ps.push_back(Fs[I - 1]);
        if (O == "compose") return Compose<D, C>::compose(Ps);
        return std::make_shared<Compose<D, C>>(Ps);
      }
      if (O == "Union") {
        std::vector<P> Ps;
        for (int I : N["fs"]) Ps.push_back(Fs[I - 1]);
        return std::make_shared<Union<D, C>>(Ps);
      }
      if (O == "Id") return Identity<D, C>::getInstance();
      if (O == "Gen") return P(new Gen<D, C>(A(), B()));
      if (O == "GenIf") return std::make_shared<GenIf<D, C>>(A(), pred(N["s"]));
      if (O == "GenAll") return std::make_shared<GenAll<D, C>>(set(N["s"]), B());
      if (O == "Kill") return std::make_shared<Kill<D, C>>(A());
      if (O == "KillIf") return std::make_shared<KillIf<D, C>>(pred(N["s"]));
      if (O == "KillMultiple") return std::make_shared<KillMultiple<D, C>>(set(N["s"]));
      if (O == "KillAll") return KillAll<D, C>::getInstance();
      if (O == "GenKill") return std::make_shared<GenAndKillAllOthers<D, C>>(A(), B());
      if (O == "GenAllKill") return std::make_shared<GenAllAndKillAllOthers<D, C>>(set(N["s"]), B());
      if (O == "Transfer") return std::make_shared<Transfer<D, C>>(A(), B());
    }
    throw std::runtime_error("op " + O);
  }
  json tab(P F, bool Rev) {
    std::vector<json> R(K);
    for (int J = 0; J < K; ++J) {
      int I = Rev ? K - 1 - J : J;
      D X = mk<D>(I);
      std::set<int> S;
      for (auto &Y : F->computeTargets(X)) S.insert(un(Y));
      R[I] = S;
    }
    return R;
  }
  json run(const json &Nodes) {
    json O = json::array();
    for (auto &N : Nodes) {
      Fs.push_back(build(N));
      json M = N;
      M["tab"] = tab(Fs.back(), false);
      O.push_back(M);
    }
    for (size_t I = Fs.size(); I-- > 0;) O[I]["tab2"] = tab(Fs[I], true);
    return O;
  }
};

// ---------------------------------------------------------------- the cache
// flow:  t in F(k,a..)(d)  iff  (k + sum c_i*a_i + 3d + 5t) mod 3 = 0
// edge:  index (k + sum c_i*a_i + 3d + 5t) mod 6
static int lin(int Kind, std::initializer_list<int> A) {
  int R = Kind, C = 1;
  for (int X : A) R += (C++) * X;
  return R;
}
struct LDom : LLVMAnalysisDomainDefault {
  using l_t = toy::Val;
};
template <typename Dom> struct CacheProblem : IDETabulationProblem<Dom> {
  using B = IDETabulationProblem<Dom>;
  using n_t = typename Dom::n_t;
  using d_t = typename Dom::d_t;
  using f_t = typename Dom::f_t;
  using FFP = typename B::FlowFunctionPtrType;
  std::vector<d_t> Facts; // 1-based ids
  std::function<int(n_t)> NI;
  std::function<int(f_t)> FI;
  std::function<int(d_t)> DI;
  std::vector<toy::EFRaw> EFs;
  mutable int Calls = 0;
  template <typename DBT> CacheProblem(const DBT *D, d_t Z, bool AZ) : B(D, {}, Z) {
    auto C = this->getIFDSIDESolverConfig();
    C.setAutoAddZero(AZ);
    this->setIFDSIDESolverConfig(C);
  }
  FFP ff(int H) {
    struct F : FlowFunction<d_t> {
      CacheProblem *P;
      int H;
      F(CacheProblem *P, int H) : P(P), H(H) {}
      std::set<d_t> computeTargets(d_t S) override {
        std::set<d_t> R;
        for (auto T : P->Facts)
          if ((H + 3 * P->DI(S) + 5 * P->DI(T)) % 3 == 0 || ((H + P->DI(S) + P->DI(T)) % 4 == 0)) R.insert(T);
        return R;
      }
    };
    return std::make_shared<F>(this, H);
  }
  EdgeFunction<toy::Val> ef(int H, d_t S, d_t T) { return toy::ToyEF{EFs[(H + 3 * DI(S) + 5 * DI(T)) % EFs.size()]}; }
  FFP getNormalFlowFunction(n_t A, n_t C) override { return ff(lin(1, {NI(A), NI(C)})); }
  FFP getCallFlowFunction(n_t A, f_t F) override { return ff(lin(2, {NI(A), FI(F)})); }
  FFP getRetFlowFunction(n_t A, f_t F, n_t E, n_t R) override { return ff(lin(3, {NI(A), FI(F), NI(E), NI(R)})); }
  FFP getCallToRetFlowFunction(n_t A, n_t C, llvm::ArrayRef<f_t>) override { return ff(lin(4, {NI(A), NI(C)})); }
  FFP getSummaryFlowFunction(n_t A, f_t F) override { return lin(5, {NI(A), FI(F)}) % 2 ? ff(lin(5, {NI(A), FI(F)})) : nullptr; }
  EdgeFunction<toy::Val> getNormalEdgeFunction(n_t A, d_t S, n_t C, d_t T) override { return ef(lin(1, {NI(A), NI(C)}), S, T); }
  EdgeFunction<toy::Val> getCallEdgeFunction(n_t A, d_t S, f_t F, d_t T) override { return ef(lin(2, {NI(A), FI(F)}), S, T); }
  EdgeFunction<toy::Val> getReturnEdgeFunction(n_t A, f_t F, n_t E, d_t S, n_t R, d_t T) override { return ef(lin(3, {NI(A), FI(F), NI(E), NI(R)}), S, T); }
  EdgeFunction<toy::Val> getCallToRetEdgeFunction(n_t A, d_t S, n_t C, d_t T, llvm::ArrayRef<f_t>) override { return ef(lin(4, {NI(A), NI(C)}), S, T); }
  EdgeFunction<toy::Val> getSummaryEdgeFunction(n_t A, d_t S, n_t R, d_t T) override { return ef(lin(5, {NI(A), NI(R)}), S, T); }
  InitialSeeds<n_t, d_t, toy::Val> initialSeeds() override { return {}; }
  bool isZeroValue(d_t F) const noexcept override { return DI(F) == 1; }
};
template <typename Dom, typename NV, typename FV>
json runCache(CacheProblem<Dom> &P, const NV &N, const FV &F, const json &In) {
  for (auto &E : In["efs"]) {
    toy::EFRaw R;
    R.B = E[0], R.R[0] = E[1], R.R[1] = E[2], R.R[2] = E[3];
    P.EFs.push_back(R);
  }
  FlowEdgeFunctionCache<Dom> Cache(P);
  json O = json::array();
  std::vector<typename Dom::f_t> Fs(F.begin(), F.end());
  for (auto &Op : In["ops"]) {
    int Kd = Op["k"];
    auto A = [&](const char *X) { return Op[X].get<int>() - 1; };
    auto a = N[A("a") % N.size()];
    auto c = N[A("c") % N.size()];
    auto e = N[A("e") % N.size()];
    auto f = F[A("f") % F.size()];
    auto s = P.Facts[A("s") % P.Facts.size()], t = P.Facts[A("t") % P.Facts.size()];
    json R = Op;
    R["a"] = P.NI(a), R["c"] = P.NI(c), R["e"] = P.NI(e), R["f"] = P.FI(f), R["s"] = P.DI(s), R["t"] = P.DI(t);
    if (Op["flow"].get<bool>()) {
      typename CacheProblem<Dom>::FFP FF = Kd == 1   ? Cache.getNormalFlowFunction(a, c)
                                           : Kd == 2 ? Cache.getCallFlowFunction(a, f)
                                           : Kd == 3 ? Cache.getRetFlowFunction(a, f, e, c)
                                           : Kd == 4 ? Cache.getCallToRetFlowFunction(a, c, Fs)
                                                     : Cache.getSummaryFlowFunction(a, f);
      R["null"] = FF == nullptr;
      json Tab = json::array();
      if (FF)
        for (auto D : P.Facts) {
          std::set<int> S;
          for (auto T : FF->computeTargets(D)) S.insert(P.DI(T));
          Tab.push_back(S);
        }
      R["res"] = Tab;
    } else {
      EdgeFunction<toy::Val> EF = Kd == 1   ? Cache.getNormalEdgeFunction(a, s, c, t)
                                  : Kd == 2 ? Cache.getCallEdgeFunction(a, s, f, t)
                                  : Kd == 3 ? Cache.getReturnEdgeFunction(a, f, e, s, c, t)
                                  : Kd == 4 ? Cache.getCallToRetEdgeFunction(a, s, c, t, Fs)
                                            : Cache.getSummaryEdgeFunction(a, s, c, t);
      json Tab = json::array();
      for (uint32_t M = 0; M < 8; ++M) Tab.push_back(EF.computeTarget(toy::Val{M}).M);
      R["null"] = false;
      R["res"] = Tab;
    }
    O.push_back(R);
  }
  json Cnt = json::object();
  size_t Cached = 0;
  Cache.foreachCachedEdgeFunction([&](const auto &, EdgeFunctionKind) { ++Cached; });
  return {{"ops", O}, {"autozero", In["autozero"]}, {"efs", In["efs"]}, {"nd", P.Facts.size()}, {"cached", Cached}};
}
json cacheToy(const json &In) {
  toy::DB DB;
  CacheProblem<toy::IDEDomain> P(&DB, toy::Fact(1), In["autozero"].get<bool>());
  std::vector<toy::NodeRef> N;
  std::vector<toy::FunRef> F;
  for (uint32_t I = 1; I <= 6; ++I) N.push_back(I), P.Facts.push_back(toy::Fact(I));
  for (uint32_t I = 1; I <= 3; ++I) F.push_back(I);
  P.NI = [](toy::NodeRef X) { return int(X.Id); };
  P.FI = [](toy::FunRef X) { return int(X.Id); };
  P.DI = [](toy::Fact X) { return int(X.Id); };
  return runCache(P, N, F, In);
}
struct Mod {
  std::string Text;
  std::unique_ptr<LLVMProjectIRDB> DB;
  explicit Mod(std::string T) : Text(std::move(T)) {
    DB = std::make_unique<LLVMProjectIRDB>(llvm::MemoryBufferRef(Text, "in"));
    if (!DB->isValid()) throw std::runtime_error("IR\n" + Text);
  }
};
json cacheLLVM(const json &In) {
  static Mod M("@g1 = global i32 0\n@g2 = global i32 0\n"
               "define i32 @f(i32 %a, i32* %p) {\n %1 = add i32 %a, 1\n store i32 %1, i32* %p\n %2 = load i32, i32* %p\n ret i32 %2\n}\n"
               "define i32 @main() {\n %x = alloca i32\n %1 = call i32 @f(i32 3, i32* %x)\n %2 = call i32 @f(i32 %1, i32* @g1)\n ret i32 %2\n}\n");
  const llvm::Value *Z = LLVMZeroValue::getInstance();
  CacheProblem<LDom> P(M.DB.get(), Z, In["autozero"].get<bool>());
  std::vector<const llvm::Instruction *> N;
  std::vector<const llvm::Function *> F{M.DB->getFunction("f"), M.DB->getFunction("main")};
  P.Facts.push_back(Z);
  for (auto *Fn : F)
    for (auto &I : llvm::instructions(Fn)) N.push_back(&I);
  for (auto *I : N) P.Facts.push_back(I); // instructions are facts as well
  P.Facts.push_back(F[0]->getArg(0));
  P.Facts.push_back(M.DB->getModule()->getGlobalVariable("g1"));
  std::map<const llvm::Value *, int> Id, NId;
  for (auto *V : P.Facts) Id[V] = Id.size();
  for (auto &[V, I] : Id) (void)V;
  int C = 0;
  Id.clear();
  for (auto *V : P.Facts) Id[V] = ++C;
  C = 0;
  for (auto *V : N) NId[V] = ++C;
  P.NI = [&](const llvm::Instruction *X) { return NId.at(X); };
  P.FI = [&](const llvm::Function *X) { return X == F[0] ? 1 : 2; };
  P.DI = [&](const llvm::Value *X) { return Id.at(X); };
  return runCache(P, N, F, In);
}

// ------------------------------------------------------------- LLVM mappers
json runMap(const json &In) {
  Mod M(In["ir"].get<std::string>());
  const auto *Callee = M.DB->getFunction("f"), *Main = M.DB->getFunction("main");
  const llvm::Value *Z = LLVMZeroValue::getInstance();
  std::vector<const llvm::Value *> Vs{Z};
  std::map<const llvm::Value *, int> Id{{Z, 1}};
  auto add = [&](const llvm::Value *V) {
    if (V && !Id.count(V)) Vs.push_back(V), Id[V] = Vs.size();
  };
  for (auto &G : M.DB->getModule()->globals()) add(&G);
  for (auto *F : {Callee, Main}) {
    for (auto &A : F->args()) add(&A);
    for (auto &I : llvm::instructions(F)) {
      add(&I);
      for (auto &O : I.operands())
        if (!llvm::isa<llvm::BasicBlock>(O) && !llvm::isa<llvm::Function>(O) && !llvm::isa<llvm::MetadataAsValue>(O)) add(O.get());
    }
  }
  auto id = [&](const llvm::Value *V) { auto It = Id.find(V); return It == Id.end() ? 999 : It->second; };
  const llvm::CallBase *CS = nullptr;
  const llvm::StoreInst *St = nullptr;
  for (auto &I : llvm::instructions(Main)) {
    if (auto *C = llvm::dyn_cast<llvm::CallBase>(&I)) CS = C;
    if (auto *S = llvm::dyn_cast<llvm::StoreInst>(&I)) St = S;
  }
  json O = {{"nv", Vs.size()}};
  json Args = json::array(), Params = json::array(), Consts = json::array(), VA = json::array();
  for (auto &A : CS->args()) Args.push_back(id(A.get()));
  for (auto &A : Callee->args()) Params.push_back(id(&A));
  for (auto *V : Vs) if (V != Z && llvm::isa<llvm::Constant>(V)) Consts.push_back(id(V));
  const llvm::Instruction *Exit = nullptr;
  for (auto &I : llvm::instructions(Callee)) {
    if (I.isTerminator() && I.getNumSuccessors() == 0) Exit = &I;
    if (I.hasName() && I.getName().startswith("va")) VA.push_back(id(&I));
  }
  O["args"] = Args, O["params"] = Params, O["consts"] = Consts, O["va"] = VA;
  O["decl"] = Callee->isDeclaration(), O["sret"] = !Callee->arg_empty() && Callee->arg_begin()->hasStructRetAttr();
  O["cs"] = id(CS);
  O["rv"] = 0;
  if (auto *R = llvm::dyn_cast_or_null<llvm::ReturnInst>(Exit)) if (R->getReturnValue()) O["rv"] = id(R->getReturnValue());
  O["sptr"] = id(St->getPointerOperand()), O["sval"] = id(St->getValueOperand()), O["sbase"] = id(St->getPointerOperand()->stripPointerCasts());
  json Res = json::array();
  auto table = [&](FlowFunctionPtrType<const llvm::Value *> F) {
    json T = json::array();
    for (auto *V : Vs) {
      std::set<int> S;
      for (auto *W : F->computeTargets(V)) S.insert(id(W));
      T.push_back(S);
    }
    return T;
  };
  for (auto &Q : In["queries"]) {
    json R = Q;
    std::string Kd = Q["k"];
    int Salt = Q["salt"];
    bool Def = Q["def"], PG = Q["pg"], PZ = Q["pz"];
    auto Rel = [&Id, Salt](const llvm::Value *V, const llvm::Value *S) { return V == S || (Id.at(V) * 3 + Id.at(S) * 5 + Salt) % 4 == 0; };
    auto Rel2 = [&Id, Salt](const llvm::Value *V, const llvm::Value *S) { return (Id.at(V) * 2 + Id.at(S) * 7 + Salt) % 3 == 0; };
    auto Un = [&Id, Salt](const llvm::Value *V) { return (Id.at(V) + Salt) % 2 == 0; };
    using DC = DefaultConstruct<const llvm::Value *>;
    FlowFunctionPtrType<const llvm::Value *> F;
    if (Kd == "along") {
      if (Def) F = mapFactsAlongsideCallSite(CS, TrueFn{}, PG);
      else F = mapFactsAlongsideCallSite(CS, Un, PG);
    } else if (Kd == "callee") {
      if (Def) F = mapFactsToCallee(CS, Callee, std::equal_to<const llvm::Value *>{}, DC{}, PG, PZ);
      else F = mapFactsToCallee(CS, Callee, Rel, DC{}, PG, PZ);
    } else if (Kd == "caller") {
      if (!Exit) continue;
      int Drop = Q["drop"];
      auto Post = [&](auto &C) {
        if (Drop > 0 && Drop <= int(Vs.size())) C.erase(Vs[Drop - 1]);
      };
      if (Def) F = mapFactsToCaller(CS, Exit, std::equal_to<const llvm::Value *>{}, std::equal_to<const llvm::Value *>{}, DC{}, PG, PZ, Post);
      else F = mapFactsToCaller(CS, Exit, Rel, Rel2, DC{}, PG, PZ, Post);
    } else if (Kd == "store") {
      if (Def) F = strongUpdateStore(St);
      else F = strongUpdateStore(St, Un);
    }
    R["tab"] = table(F);
    Res.push_back(R);
  }
  O["queries"] = Res;
  return O;
}

json runSeeds(const json &Ops) {
  InitialSeeds<int, int, int> S;
  json O = json::array();
  for (auto &Op : Ops) {
    S.addSeed(Op[0], Op[1], Op[2]);
    json Cont = json::array(), Per = json::array();
    for (auto &[N, Fs] : S.getSeeds())
      for (auto &[D, L] : Fs) Cont.push_back({N, D, L});
    for (int N = 0; N < 4; ++N) Per.push_back({S.countInitialSeeds(N), int(S.containsInitialSeedsFor(N))});
    O.push_back({{"op", Op}, {"all", Cont}, {"n", S.countInitialSeeds()}, {"per", Per}, {"empty", S.empty()}});
  }
  return O;
}

int main(int C, char **A) {
  json In = json::parse(std::ifstream(A[1]));
  json Out = {{"dags", json::array()}, {"cache", json::array()}, {"maps", json::array()}, {"seeds", json::array()}};
  for (auto &D : In["dags"]) {
    std::string T = D["t"];
    if (T == "int") Out["dags"].push_back(Dag<int, std::set<int>>{}.run(D["nodes"]));
    else if (T == "str") Out["dags"].push_back(Dag<std::string, std::set<std::string>>{}.run(D["nodes"]));
    else Out["dags"].push_back(Dag<std::string, std::unordered_set<std::string>>{}.run(D["nodes"]));
  }
  for (auto &D : In["cache"]) Out["cache"].push_back(D["llvm"].get<bool>() ? cacheLLVM(D) : cacheToy(D));
  for (auto &D : In["maps"]) Out["maps"].push_back(runMap(D));
  for (auto &D : In["seeds"]) Out["seeds"].push_back(runSeeds(D));
  std::ofstream(A[2]) << Out.dump();
}
