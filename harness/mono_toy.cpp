// Runs the real intra-procedural monotone solver on explicit control-flow
// graphs with tabulated transfer functions (instances of spec/Mono.tla).
#include "phasar/ControlFlow/CFGBase.h"
#include "phasar/DataFlow/Mono/IntraMonoProblem.h"
#include "phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"
#include "phasar/Utils/BitVectorSet.h"
#include "toy.h"
using namespace toy;

namespace toy {
struct MInst {
  uint32_t NN, NB;
  std::vector<uint32_t> Fun;
  std::vector<std::vector<NodeRef>> Succs, Preds;
  std::vector<std::vector<uint32_t>> Tab; // node -> mask -> mask
  std::vector<std::vector<NodeRef>> Nodes; // fun ->
  bool Meet; // merge is intersection, top is everything
  std::vector<std::pair<uint32_t, uint32_t>> Seeds;
  uint32_t NF;
  explicit MInst(const json &J) {
    NN = J["nn"], NB = J["nb"], NF = J["nf"], Meet = J["meet"].get<bool>();
    Fun.resize(NN + 1), Succs.resize(NN + 1), Preds.resize(NN + 1),
        Tab.resize(NN + 1), Nodes.resize(NF + 1);
    for (uint32_t N = 1; N <= NN; ++N) {
      Fun[N] = J["fun"][N - 1];
      Nodes[Fun[N]].push_back(N);
      for (uint32_t S : J["succs"][N - 1]) {
        Succs[N].push_back(S);
        Preds[S].push_back(N);
      }
      for (uint32_t S : J["tab"][N - 1])
        Tab[N].push_back(S);
    }
    for (auto &S : J["seeds"])
      Seeds.emplace_back(S[0], S[1]);
  }
};
struct MCFG;
struct MDB;
} // namespace toy
namespace psr {
template <> struct CFGTraits<toy::MCFG> {
  using n_t = toy::NodeRef;
  using f_t = toy::FunRef;
};
template <> struct ProjectIRDBTraits<toy::MDB> {
  using n_t = toy::NodeRef;
  using f_t = toy::FunRef;
  using m_t = int;
  using g_t = int;
};
} // namespace psr
namespace toy {
struct MDB : psr::ProjectIRDBBase<MDB> {
  bool isValidImpl() const noexcept { return true; }
  void dumpImpl() const {}
  FunRef getFunctionDefinitionImpl(llvm::StringRef N) const {
    return FunRef(std::stoul(N.str()));
  }
};
struct MCFG : psr::CFGBase<MCFG> {
  const MInst *I;
  MCFG(const MInst *I) : I(I) {}
  FunRef getFunctionOfImpl(NodeRef N) const noexcept { return I->Fun[N]; }
  const auto &getSuccsOfImpl(NodeRef N) const { return I->Succs[N]; }
  const auto &getPredsOfImpl(NodeRef N) const { return I->Preds[N]; }
  std::vector<std::pair<NodeRef, NodeRef>>
  getAllControlFlowEdgesImpl(FunRef F) const {
    std::vector<std::pair<NodeRef, NodeRef>> R;
    for (auto N : I->Nodes[F])
      for (auto S : I->Succs[N])
        R.emplace_back(N, S);
    return R;
  }
  const auto &getAllInstructionsOfImpl(FunRef F) const { return I->Nodes[F]; }
  bool isBranchTargetImpl(NodeRef A, NodeRef B) const noexcept {
    return I->Succs[A].size() > 1 || I->Preds[B].size() > 1;
  }
};
template <typename C> struct MDomain : psr::AnalysisDomain {
  using d_t = Fact;
  using n_t = NodeRef;
  using f_t = FunRef;
  using t_t = int;
  using v_t = int;
  using c_t = MCFG;
  using i_t = MCFG;
  using db_t = MDB;
  using mono_container_t = C;
};
template <typename C> struct MProblem : psr::IntraMonoProblem<MDomain<C>> {
  using Base = psr::IntraMonoProblem<MDomain<C>>;
  const MInst &I;
  size_t Evals = 0;
  MProblem(const MInst &I, const MDB *D, const MCFG *G)
      : Base(D, nullptr, G, {}, entries(I)), I(I) {}
  static std::vector<std::string> entries(const MInst &I) {
    std::vector<std::string> R;
    for (uint32_t F = 1; F <= I.NF; ++F)
      R.push_back(std::to_string(F));
    return R;
  }
  static uint32_t mask(const C &S) {
    uint32_t M = 0;
    for (auto F : S)
      M |= 1u << (F.Id - 1);
    return M;
  }
  C set(uint32_t M) const {
    C S;
    for (uint32_t B = 0; B < I.NB; ++B)
      if (M & (1u << B))
        S.insert(Fact(B + 1));
    return S;
  }
  C normalFlow(NodeRef N, const C &In) override {
    if (++Evals > 2000000) {
      std::cerr << "does not terminate\n";
      _exit(3);
    }
    return set(I.Tab[N][mask(In)]);
  }
  C merge(const C &A, const C &B) override {
    return set(I.Meet ? mask(A) & mask(B) : mask(A) | mask(B));
  }
  bool equal_to(const C &A, const C &B) override { return mask(A) == mask(B); }
  C allTop() override { return set(I.Meet ? (1u << I.NB) - 1 : 0); }
  std::unordered_map<NodeRef, C> initialSeeds() override {
    std::unordered_map<NodeRef, C> R;
    for (auto [N, M] : I.Seeds)
      R[NodeRef(N)] = set(M);
    return R;
  }
};
template <typename C> json run(const MInst &I) {
  MDB D;
  MCFG G(&I);
  MProblem<C> P(I, &D, &G);
  psr::IntraMonoSolver S(P);
  S.solve();
  json R = json::array();
  for (uint32_t N = 1; N <= I.NN; ++N)
    R.push_back(MProblem<C>::mask(S.getResultsAt(NodeRef(N))));
  return R;
}
} // namespace toy

int main(int argc, char **argv) {
  std::ifstream In(argv[1]);
  std::ofstream Os(argv[2]);
  json All = json::parse(In), Out = json::array();
  for (auto &J : All) {
    MInst I(J);
    Out.push_back({run<std::set<Fact>>(I), run<psr::BitVectorSet<Fact>>(I)});
  }
  Os << Out.dump() << "\n";
}
