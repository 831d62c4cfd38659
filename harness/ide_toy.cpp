// Solves every instance with the real IDE and IFDS solvers under several
// solver configurations / drive modes and writes the reported results.
#include "toy.h"
using namespace toy;

// every entry of the results must be the same whichever accessor is used
template <typename R> static json accessors(const Instance &I, const R &Res) {
  json J = resultsJson(I, Res);
  std::map<uint32_t, std::map<uint32_t, uint32_t>> Cells;
  for (auto &C : Res.getAllResultEntries())
    Cells[C.getRowKey()][C.getColumnKey().Id] = maskOf(C.getValue());
  for (uint32_t N = 1; N <= I.NN; ++N) {
    json Row = json::array();
    for (auto [D, V] : Cells[N]) {
      Row.push_back({D, maskOf(Res.resultAt(NodeRef(N), Fact(D)))});
    }
    auto Stripped = Res.resultsAt(NodeRef(N), true);
    size_t HasZero = Cells[N].count(1);
    if (Row != J[N - 1] || Stripped.size() + HasZero != Cells[N].size() ||
        Stripped.count(Fact(1)))
      Row.push_back({999, 0}); // shows up as a wrong fact
    J[N - 1] = Row;
  }
  return J;
}
static json factsOnly(const Instance &I, const std::function<std::set<Fact>(NodeRef)> &F) {
  json J = json::array();
  for (uint32_t N = 1; N <= I.NN; ++N) {
    json Row = json::array();
    for (auto D : F(N))
      Row.push_back({D.Id, 7});
    J.push_back(Row);
  }
  return J;
}

template <typename Prob> static json runAll(const Instance &I) {
  DB D;
  ICFG G{&I};
  json Out = json::object();
  constexpr bool Ifds = std::is_same_v<Prob, IFDSProblem>;
  {
    Prob P(I, &D);
    psr::IDESolver S(P, &G);
    Out["solve"] = resultsJson(I, S.solve());
    Out["owned"] = accessors(I, S.consumeSolverResults());
  }
  {
    Prob P(I, &D);
    P.getIFDSIDESolverConfig().setRecordEdges(true);
    psr::IDESolver S(P, &G);
    Out["recordEdges"] = resultsJson(I, std::move(S).solve());
  }
  {
    Prob P(I, &D);
    if constexpr (Ifds) {
      Out["free"] = accessors(I, psr::solveIFDSProblem(P, G));
      Prob P2(I, &D);
      psr::IFDSSolver S(P2, &G);
      S.solve();
      Out["ifdsResultsAt"] = factsOnly(I, [&](NodeRef N) { return S.ifdsResultsAt(N); });
      auto R = S.getSolverResults();
      Out["ifdsResultsAt2"] = factsOnly(I, [&](NodeRef N) { return R.ifdsResultsAt(N); });
    } else {
      Out["free"] = accessors(I, psr::solveIDEProblem(P, G));
    }
  }
  return Out;
}

int main(int argc, char **argv) {
  std::ifstream In(argv[1]);
  std::ofstream Os(argv[2]);
  json All = json::parse(In);
  size_t Idx = 0;
  json Out = json::array();
  for (auto &J : All) {
    std::cerr << "instance " << Idx++ << "\n";
    Instance I(J);
    json R;
    R["ide"] = runAll<IDEProblem>(I);
    R["ifds"] = runAll<IFDSProblem>(I);
    // resultAt must agree with resultsAt
    Out.push_back(std::move(R));
  }
  Os << Out.dump() << "\n";
  return 0;
}
