// Replays recorded exploded-supergraph edges into phasar's ExplodedSuperGraph,
// asks the real path-sensitivity manager for path DAGs under several
// configurations, and feeds given DAGs to the real minimizer (PathDag.tla).
#include "phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h"
#include "phasar/DataFlow/PathSensitivity/PathSensitivityConfig.h"
#include "phasar/DataFlow/PathSensitivity/PathSensitivityManager.h"
#include "phasar/Utils/DFAMinimizer.h"
#include "phasar/Utils/GraphTraits.h"

#include "nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <set>
#include <sys/resource.h>
#include <unistd.h>
using nlohmann::json;

struct Stmt {
  int Id = 0, Block = 0;
  int getParent() const { return Block; }
};
// a data-flow fact that notices when it is used after having been moved from
struct Fact {
  std::string S;
  friend bool operator==(const Fact &A, const Fact &B) { return A.S == B.S; }
  friend bool operator!=(const Fact &A, const Fact &B) { return A.S != B.S; }
  friend bool operator<(const Fact &A, const Fact &B) { return A.S < B.S; }
  std::string str() const { return S; }
};
namespace std {
template <> struct hash<Fact> {
  size_t operator()(const Fact &F) const { return hash<string>()(F.S); }
};
} // namespace std
static llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Fact &F) {
  return OS << F.S;
}
static llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, const Stmt *N) {
  return OS << N->Id;
}
struct Dom {
  using n_t = const Stmt *;
  using d_t = Fact;
};
using Mgr = psr::PathSensitivityManager<Dom>;
using Graph = Mgr::graph_type;
static Fact fact(int I) { return Fact{"a-data-flow-fact-with-a-long-name-" + std::to_string(I)}; }

template <typename G, typename L> static json dump(const G &Dag, L Label) {
  using T = psr::GraphTraits<G>;
  json J;
  J["labels"] = json::array();
  J["edges"] = json::array();
  J["roots"] = json::array();
  for (auto V : T::vertices(Dag)) {
    json W = json::array();
    for (auto X : T::node(Dag, V))
      W.push_back(Label(X));
    J["labels"].push_back(W);
    for (auto E : T::outEdges(Dag, V))
      J["edges"].push_back(json::array({unsigned(V) + 1, unsigned(T::target(E)) + 1}));
  }
  for (auto R : T::roots(Dag))
    J["roots"].push_back(unsigned(R) + 1);
  return J;
}

static json runEsg(const json &C) {
  std::vector<Stmt> Stmts;
  for (const json &B : C["blocks"])
    Stmts.push_back(Stmt{int(Stmts.size()) + 1, B});
  psr::ExplodedSuperGraph<Dom> ESG(fact(0));
  auto At = [&](int N) { return &Stmts[N - 1]; };
  for (const json &R : C["record"]) {
    std::set<Fact> Ds;
    for (int D : R["ds"])
      Ds.insert(fact(D));
    std::string K = R["k"];
    auto Kind = K == "call"  ? psr::ESGEdgeKind::Call
                : K == "ret" ? psr::ESGEdgeKind::Ret
                : K == "ctr" ? psr::ESGEdgeKind::CallToRet
                             : psr::ESGEdgeKind::Normal;
    ESG.saveEdges(At(R["n"]), fact(R["d"]), At(R["s"]), Ds, Kind);
  }
  Mgr PSM(&ESG);
  json Out = json::array();
  for (const json &Q : C["queries"]) {
    json Dags = json::array();
    for (const json &Cf : C["configs"]) {
      psr::PathSensitivityConfig Conf;
      Conf.MinimizeDAG = Cf["min"];
      if (int(Cf["depth"]) >= 0)
        Conf.DAGDepthThreshold = size_t(int(Cf["depth"]));
      std::vector<Fact> Ds;
      for (int D : Q["ds"])
        Ds.push_back(fact(D));
      auto Dag = Ds.size() == 1 ? PSM.pathsDagTo(At(Q["n"]), Ds[0], Conf)
                                : PSM.pathsDagToAll(At(Q["n"]), Ds, Conf);
      json J = dump(Dag, [](const Stmt *S) { return S->Id; });
      J["min"] = Cf["min"];
      J["depth"] = Cf["depth"];
      Dags.push_back(J);
    }
    Out.push_back(Dags);
  }
  return Out;
}

using LG = psr::AdjacencyList<std::vector<int>>;
static json runDag(const json &C) {
  using T = psr::GraphTraits<LG>;
  LG G;
  for (const json &L : C["labels"])
    T::addNode(G, L.get<std::vector<int>>());
  for (const json &E : C["edges"])
    T::addEdge(G, unsigned(E[0]) - 1, unsigned(E[1]) - 1);
  for (const json &R : C["roots"])
    T::addRoot(G, unsigned(R) - 1);
  for (auto V : T::vertices(G))
    T::dedupOutEdges(G, V);
  auto Id = [](int X) { return X; };
  json J0 = dump(G, Id);
  J0["min"] = false;
  J0["depth"] = -1;
  json R = dump(psr::reverseGraph(G), Id);
  auto Eq = psr::minimizeGraph(G);
  LG M = psr::createEquivalentGraphFrom(std::move(G), Eq);
  json J1 = dump(M, Id);
  J1["min"] = true;
  J1["depth"] = -1;
  J0["rev"] = R;
  return json::array({json::array({J0, J1})});
}

int main(int argc, char **argv) {
  struct rlimit RL{4ull << 30, 4ull << 30};
  setrlimit(RLIMIT_AS, &RL);
  json In = json::parse(std::ifstream(argv[1])), Out = json::array();
  size_t I = 0;
  for (const json &C : In) {
    std::ofstream(std::string(argv[2]) + ".at") << I++;
    alarm(20);
    Out.push_back(C["kind"] == "dag" ? runDag(C) : runEsg(C));
  }
  std::ofstream(argv[2]) << Out;
}
