// Toy analysis domain: an explicit finite inter-procedural supergraph with
// explicit finite flow/edge functions, on which phasar's real IDE/IFDS solver
// templates are instantiated. Everything is read from a JSON instance produced
// by /verif/lib/gen_esg.py; the same instance is interpreted by spec/IDE.tla.
#pragma once
#include "phasar/DB/ProjectIRDBBase.h"
#include "phasar/DataFlow/IfdsIde/IDETabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/IFDSTabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/Domain/AnalysisDomain.h"
#include "phasar/Domain/BinaryDomain.h"
#include "phasar/Utils/JoinLattice.h"
#include "phasar/Utils/Logger.h"

#include "nlohmann/json.hpp"

#include <array>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <vector>

namespace toy {
using json = nlohmann::json;

struct FunRef;
struct NodeRef {
  uint32_t Id = 0;
  constexpr NodeRef() = default;
  constexpr NodeRef(uint32_t I) : Id(I) {}
  constexpr operator uint32_t() const { return Id; }
  const NodeRef *operator->() const { return this; }
  inline FunRef getFunction() const;
  std::string str() const { return "n" + std::to_string(Id); }
};
struct FunRef {
  uint32_t Id = 0;
  constexpr FunRef() = default;
  constexpr FunRef(uint32_t I) : Id(I) {}
  constexpr operator uint32_t() const { return Id; }
  const FunRef *operator->() const { return this; }
  llvm::StringRef getName() const { return "f"; }
  std::string str() const { return "f" + std::to_string(Id); }
};
inline FunRef NodeRef::getFunction() const { return {}; }

struct Fact {
  uint32_t Id = 0;
  constexpr Fact() = default;
  constexpr Fact(uint32_t I) : Id(I) {}
  constexpr operator uint32_t() const { return Id; }
  std::string str() const { return "d" + std::to_string(Id); }
};

// Powerset lattice over {1,2,3}: join = union, top = {}, bottom = {1,2,3}
struct Val {
  uint32_t M = 0;
  friend bool operator==(Val A, Val B) { return A.M == B.M; }
  friend bool operator!=(Val A, Val B) { return A.M != B.M; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, Val V) {
    return OS << V.M;
  }
  friend std::ostream &operator<<(std::ostream &OS, Val V) {
    return OS << V.M;
  }
};
} // namespace toy

namespace std {
template <> struct hash<toy::NodeRef> {
  size_t operator()(toy::NodeRef N) const { return N.Id; }
};
template <> struct hash<toy::FunRef> {
  size_t operator()(toy::FunRef N) const { return N.Id; }
};
template <> struct hash<toy::Fact> {
  size_t operator()(toy::Fact N) const { return N.Id; }
};
template <> struct hash<toy::Val> {
  size_t operator()(toy::Val N) const { return N.M; }
};
} // namespace std

namespace psr {
template <> struct JoinLatticeTraits<toy::Val> {
  static constexpr toy::Val top() { return {0}; }
  static constexpr toy::Val bottom() { return {7}; }
  static constexpr toy::Val join(toy::Val A, toy::Val B) { return {A.M | B.M}; }
};
} // namespace psr

namespace toy {
// Distributive function on the powerset lattice: f(x) = B u U_{e in x} R[e]
struct EFRaw {
  uint32_t B = 0, R[3] = {0, 0, 0};
  uint32_t apply(uint32_t X) const {
    uint32_t Y = B;
    for (int I = 0; I < 3; ++I)
      if (X & (1u << I))
        Y |= R[I];
    return Y;
  }
  friend bool operator==(const EFRaw &A, const EFRaw &C) {
    // canonical: R[i] includes B
    for (int I = 0; I < 3; ++I)
      if ((A.R[I] | A.B) != (C.R[I] | C.B))
        return false;
    return A.B == C.B;
  }
};

template <typename L> EFRaw rawOf(const psr::EdgeFunction<L> &EF);

struct ToyEF {
  using l_t = Val;
  EFRaw F;
  Val computeTarget(Val X) const { return {F.apply(X.M)}; }
  static psr::EdgeFunction<Val> compose(psr::EdgeFunctionRef<ToyEF> This,
                                        const psr::EdgeFunction<Val> &Second) {
    EFRaw S = rawOf(Second), T = This->F, O;
    O.B = S.apply(T.B);
    for (int I = 0; I < 3; ++I)
      O.R[I] = S.apply(T.R[I] | T.B);
    return ToyEF{O};
  }
  static psr::EdgeFunction<Val> join(psr::EdgeFunctionRef<ToyEF> This,
                                     const psr::EdgeFunction<Val> &Other) {
    if (llvm::isa<psr::AllTop<Val>>(Other))
      return This;
    EFRaw S = rawOf(Other), T = This->F, O;
    O.B = S.B | T.B;
    for (int I = 0; I < 3; ++I)
      O.R[I] = S.R[I] | T.R[I];
    return ToyEF{O};
  }
  friend bool operator==(const ToyEF &A, const ToyEF &B) { return A.F == B.F; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const ToyEF &E) {
    return OS << "EF[" << E.F.B << ',' << E.F.R[0] << ',' << E.F.R[1] << ','
              << E.F.R[2] << ']';
  }
};
template <typename L> EFRaw rawOf(const psr::EdgeFunction<L> &EF) {
  EFRaw O;
  O.B = EF.computeTarget(Val{0}).M;
  for (int I = 0; I < 3; ++I)
    O.R[I] = EF.computeTarget(Val{1u << I}).M;
  return O;
}

struct DB;
} // namespace toy
namespace psr {
template <> struct ProjectIRDBTraits<toy::DB> {
  using n_t = toy::NodeRef;
  using f_t = toy::FunRef;
  using m_t = int;
  using g_t = int;
};
} // namespace psr
namespace toy {
struct DB : psr::ProjectIRDBBase<DB> {
  bool isValidImpl() const noexcept { return true; }
  void dumpImpl() const {}
};

using Edge = std::pair<uint32_t, int>; // (target fact, edge function index)
using FactMap = std::vector<std::vector<Edge>>; // by source fact

struct Instance {
  uint32_t NN = 0, NF = 0, ND = 0; // nodes 1..NN, funs 1..NF, facts 1..ND; 1=zero
  std::vector<uint32_t> FunOf;     // node -> fun
  std::vector<int> IsCall, IsExit;
  std::vector<std::vector<NodeRef>> Succs;
  std::vector<std::vector<FunRef>> Callees;
  std::vector<std::vector<NodeRef>> Starts, CallsIn; // fun ->
  std::vector<std::vector<NodeRef>> Callers;         // fun ->
  std::vector<std::string> FunNames;
  std::vector<EFRaw> EFs;
  std::map<std::pair<uint32_t, uint32_t>, FactMap> Normal, Ctr;
  std::map<std::pair<uint32_t, uint32_t>, FactMap> Call; // (n,f)
  std::map<std::pair<uint32_t, uint32_t>, FactMap> Sum;  // (n,f)
  std::map<std::array<uint32_t, 4>, FactMap> Ret;        // (n,f,e,r)
  std::vector<std::array<uint32_t, 3>> Seeds;            // n,d,mask
  bool FollowReturns = false, AutoZero = true;

  static FactMap readMap(const json &J) {
    FactMap M(1);
    for (auto &Row : J) {
      std::vector<Edge> E;
      for (auto &P : Row)
        E.emplace_back(P[0].get<uint32_t>(), P[1].get<int>());
      M.push_back(std::move(E));
    }
    return M;
  }

  explicit Instance(const json &J) {
    NN = J["nn"], NF = J["nf"], ND = J["nd"];
    FunOf.resize(NN + 1), IsCall.resize(NN + 1), IsExit.resize(NN + 1);
    Succs.resize(NN + 1), Callees.resize(NN + 1);
    Starts.resize(NF + 1), CallsIn.resize(NF + 1), Callers.resize(NF + 1);
    for (uint32_t N = 1; N <= NN; ++N) {
      const auto &O = J["nodes"][N - 1];
      FunOf[N] = O["fun"];
      IsCall[N] = O["call"].get<bool>();
      IsExit[N] = O["exit"].get<bool>();
      for (uint32_t S : O["succs"])
        Succs[N].push_back(S);
      for (uint32_t S : O["callees"])
        Callees[N].push_back(S);
      if (IsCall[N]) {
        CallsIn[FunOf[N]].push_back(N);
        for (auto F : Callees[N])
          Callers[F].push_back(N);
      }
    }
    for (uint32_t F = 1; F <= NF; ++F)
      for (uint32_t S : J["starts"][F - 1])
        Starts[F].push_back(S);
    for (auto &E : J["efs"]) {
      EFRaw R;
      R.B = E[0], R.R[0] = E[1], R.R[1] = E[2], R.R[2] = E[3];
      EFs.push_back(R);
    }
    for (auto &E : J["normal"])
      Normal[{E["n"], E["m"]}] = readMap(E["map"]);
    for (auto &E : J["ctr"])
      Ctr[{E["n"], E["m"]}] = readMap(E["map"]);
    for (auto &E : J["callff"])
      Call[{E["n"], E["f"]}] = readMap(E["map"]);
    for (auto &E : J["sumff"])
      Sum[{E["n"], E["f"]}] = readMap(E["map"]);
    for (auto &E : J["retff"])
      Ret[{E["n"], E["f"], E["e"], E["r"]}] = readMap(E["map"]);
    for (auto &S : J["seeds"])
      Seeds.push_back({S[0], S[1], S[2]});
    FollowReturns = J["follow"].get<bool>();
    AutoZero = J["autozero"].get<bool>();
  }
};

// The ICFG interface the solver uses
struct ICFG {
  const Instance *I;
  using n_t = NodeRef;
  using f_t = FunRef;
  const auto &getSuccsOf(NodeRef N) const { return I->Succs[N]; }
  const auto &getReturnSitesOfCallAt(NodeRef N) const { return I->Succs[N]; }
  const auto &getCalleesOfCallAt(NodeRef N) const { return I->Callees[N]; }
  const auto &getStartPointsOf(FunRef F) const { return I->Starts[F]; }
  const auto &getCallersOf(FunRef F) const { return I->Callers[F]; }
  const auto &getCallsFromWithin(FunRef F) const { return I->CallsIn[F]; }
  bool isCallSite(NodeRef N) const { return I->IsCall[N]; }
  bool isExitInst(NodeRef N) const { return I->IsExit[N]; }
  FunRef getFunctionOf(NodeRef N) const { return I->FunOf[N]; }
  std::string getFunctionName(FunRef F) const { return F.str(); }
  std::string getStatementId(NodeRef N) const { return std::to_string(N.Id); }
  bool isStartPoint(NodeRef N) const {
    for (auto S : I->Starts[I->FunOf[N]])
      if (S == N)
        return true;
    return false;
  }
  std::vector<NodeRef> allNonCallStartNodes() const {
    std::vector<NodeRef> R;
    for (uint32_t N = 1; N <= I->NN; ++N)
      if (!I->IsCall[N] && !isStartPoint(N))
        R.push_back(N);
    return R;
  }
};

struct DomainBase : psr::AnalysisDomain {
  using d_t = Fact;
  using n_t = NodeRef;
  using f_t = FunRef;
  using t_t = int;
  using v_t = int;
  using c_t = ICFG;
  using i_t = ICFG;
  using db_t = DB;
};
struct IDEDomain : DomainBase {
  using l_t = Val;
};
struct IFDSDomain : DomainBase {
  using l_t = psr::BinaryDomain;
};

struct Hooks {
  std::function<void()> OnFlow; // invoked on every flow function evaluation
};

struct TableFF : psr::FlowFunction<Fact> {
  const FactMap *M;
  const Hooks *H;
  TableFF(const FactMap *M, const Hooks *H) : M(M), H(H) {}
  std::set<Fact> computeTargets(Fact D) override {
    if (H && H->OnFlow)
      H->OnFlow();
    std::set<Fact> R;
    if (M && D.Id < M->size())
      for (auto &[T, E] : (*M)[D.Id])
        R.insert(T);
    return R;
  }
};

template <typename Map, typename Key>
const FactMap *look(const Map &M, const Key &K) {
  auto It = M.find(K);
  return It == M.end() ? nullptr : &It->second;
}

template <typename Base> struct FlowMixin : Base {
  const Instance &I;
  const Hooks *H;
  using FFPtr = typename Base::FlowFunctionPtrType;
  template <typename... T>
  FlowMixin(const Instance &I, const Hooks *H, T &&...A)
      : Base(std::forward<T>(A)...), I(I), H(H) {
    psr::IFDSIDESolverConfig C = this->getIFDSIDESolverConfig();
    C.setFollowReturnsPastSeeds(I.FollowReturns);
    C.setAutoAddZero(I.AutoZero);
    this->setIFDSIDESolverConfig(C);
  }
  FFPtr mk(const FactMap *M) { return std::make_shared<TableFF>(M, H); }
  FFPtr getNormalFlowFunction(NodeRef C, NodeRef S) override {
    return mk(look(I.Normal, std::pair<uint32_t, uint32_t>{C, S}));
  }
  FFPtr getCallFlowFunction(NodeRef C, FunRef F) override {
    return mk(look(I.Call, std::pair<uint32_t, uint32_t>{C, F}));
  }
  FFPtr getRetFlowFunction(NodeRef C, FunRef F, NodeRef E, NodeRef R) override {
    return mk(look(I.Ret, std::array<uint32_t, 4>{C, F, E, R}));
  }
  FFPtr getCallToRetFlowFunction(NodeRef C, NodeRef R,
                                 llvm::ArrayRef<FunRef>) override {
    return mk(look(I.Ctr, std::pair<uint32_t, uint32_t>{C, R}));
  }
  FFPtr getSummaryFlowFunction(NodeRef C, FunRef F) override {
    auto *M = look(I.Sum, std::pair<uint32_t, uint32_t>{C, F});
    return M ? mk(M) : nullptr;
  }
  bool isZeroValue(Fact F) const noexcept override { return F.Id == 1; }
};

struct IDEProblem : FlowMixin<psr::IDETabulationProblem<IDEDomain>> {
  using Base = FlowMixin<psr::IDETabulationProblem<IDEDomain>>;
  IDEProblem(const Instance &I, const DB *D, const Hooks *H = nullptr)
      : Base(I, H, D, std::vector<std::string>{}, Fact(1)) {}
  psr::InitialSeeds<NodeRef, Fact, Val> initialSeeds() override {
    psr::InitialSeeds<NodeRef, Fact, Val> S;
    for (auto [N, D, M] : I.Seeds)
      S.addSeed(NodeRef(N), Fact(D), Val{M});
    return S;
  }
  psr::EdgeFunction<Val> ef(const FactMap *M, Fact S, Fact T) {
    if (M && S.Id < M->size())
      for (auto &[D, E] : (*M)[S.Id])
        if (D == T.Id && E > 0)
          return ToyEF{I.EFs[E - 1]};
    return psr::EdgeIdentity<Val>{};
  }
  psr::EdgeFunction<Val> getNormalEdgeFunction(NodeRef C, Fact S, NodeRef N,
                                               Fact T) override {
    return ef(look(I.Normal, std::pair<uint32_t, uint32_t>{C, N}), S, T);
  }
  psr::EdgeFunction<Val> getCallEdgeFunction(NodeRef C, Fact S, FunRef F,
                                             Fact T) override {
    return ef(look(I.Call, std::pair<uint32_t, uint32_t>{C, F}), S, T);
  }
  psr::EdgeFunction<Val> getReturnEdgeFunction(NodeRef C, FunRef F, NodeRef E,
                                               Fact S, NodeRef R,
                                               Fact T) override {
    return ef(look(I.Ret, std::array<uint32_t, 4>{C, F, E, R}), S, T);
  }
  psr::EdgeFunction<Val>
  getCallToRetEdgeFunction(NodeRef C, Fact S, NodeRef R, Fact T,
                           llvm::ArrayRef<FunRef>) override {
    return ef(look(I.Ctr, std::pair<uint32_t, uint32_t>{C, R}), S, T);
  }
  psr::EdgeFunction<Val> getSummaryEdgeFunction(NodeRef C, Fact S, NodeRef R,
                                                Fact T) override {
    // the interface does not tell the callee: instances have at most one
    // summarised callee per call site
    for (auto F : I.Callees[C])
      if (auto *M = look(I.Sum, std::pair<uint32_t, uint32_t>{C, F}))
        return ef(M, S, T);
    return psr::EdgeIdentity<Val>{};
  }
};

struct IFDSProblem : FlowMixin<psr::IFDSTabulationProblem<IFDSDomain>> {
  using Base = FlowMixin<psr::IFDSTabulationProblem<IFDSDomain>>;
  IFDSProblem(const Instance &I, const DB *D, const Hooks *H = nullptr)
      : Base(I, H, D, std::vector<std::string>{}, Fact(1)) {}
  psr::InitialSeeds<NodeRef, Fact, psr::BinaryDomain> initialSeeds() override {
    psr::InitialSeeds<NodeRef, Fact, psr::BinaryDomain> S;
    for (auto [N, D, M] : I.Seeds)
      S.addSeed(NodeRef(N), Fact(D));
    return S;
  }
};

inline uint32_t maskOf(Val V) { return V.M; }
inline uint32_t maskOf(psr::BinaryDomain) { return 7; }

// results as [[fact, mask], ...] per node
template <typename R> json resultsJson(const Instance &I, const R &Res) {
  json J = json::array();
  for (uint32_t N = 1; N <= I.NN; ++N) {
    json Row = json::array();
    std::map<uint32_t, uint32_t> O;
    for (auto &[D, V] : Res.resultsAt(NodeRef(N)))
      O[D.Id] = maskOf(V);
    for (auto [D, M] : O)
      Row.push_back({D, M});
    J.push_back(std::move(Row));
  }
  return J;
}
} // namespace toy
