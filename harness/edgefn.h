// Shared by edgefn.cpp / edgefn_llvm.cpp: builds DAGs of edge functions from
// compose/join operations and tabulates every node (instances of spec/EdgeFn.tla).
#pragma once
#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunction.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/Domain/LatticeDomain.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <functional>
#include <iostream>
#include <vector>
using nlohmann::json;
inline json enc(const char *K, int64_t V) {
  if (V > 2000000000 || V < -2000000000)
    return {{"k", "L"}, {"v", 0}, {"s", std::to_string(V)}};
  return {{"k", K}, {"v", V}};
}

template <typename L> struct Algebra {
  using EF = psr::EdgeFunction<L>;
  std::vector<EF> Nodes;
  std::vector<json> Info;
  std::vector<L> Samples;
  std::function<json(const L &)> Enc;
  std::function<L(L, L)> Join;
  std::function<EF(const EF &, const EF &)> Ext = [](const EF &A, const EF &B) { return A.composeWith(B); };
  std::function<EF(const EF &, const EF &)> Com = [](const EF &A, const EF &B) { return A.joinWith(B); };

  json table(const EF &F) {
    json T = json::array();
    for (auto &S : Samples)
      T.push_back(Enc(F.computeTarget(S)));
    return T;
  }
  std::string cls(const EF &F) {
    if (llvm::isa<psr::EdgeIdentity<L>>(F)) return "id";
    if (llvm::isa<psr::AllTop<L>>(F)) return "top";
    if (llvm::isa<psr::AllBottom<L>>(F)) return "bot";
    return "other";
  }
  void add(EF F, json I) {
    I["tab"] = table(F);
    I["cst"] = F.isConstant();
    I["cls"] = cls(F);
    for (const char *K : {"f", "g"})
      if (!I.contains(K)) I[K] = 0;
    for (const char *K : {"gf", "rev"})
      if (!I.contains(K)) I[K] = json::array();
    if (!I.contains("leaf")) I["leaf"] = {{"k", "none"}};
    Nodes.push_back(std::move(F));
    Info.push_back(std::move(I));
  }
  void leaf(EF F, json Desc) { add(std::move(F), {{"op", "leaf"}, {"leaf", Desc}}); }
  void ops(const json &Ops) {
    for (const auto &O : Ops) {
      size_t A = O[1].get<size_t>() % Nodes.size(), B = O[2].get<size_t>() % Nodes.size();
      EF F = Nodes[A], G = Nodes[B];
      if (O[0] == "compose") {
        EF R = Ext(F, G);
        json GF = json::array();
        for (auto &S : Samples)
          GF.push_back(Enc(G.computeTarget(F.computeTarget(S))));
        add(R, {{"op", "compose"}, {"f", A + 1}, {"g", B + 1}, {"gf", GF}});
      } else {
        EF R = Com(F, G);
        EF Q = Com(G, F);
        add(R, {{"op", "join"}, {"f", A + 1}, {"g", B + 1}, {"rev", table(Q)}});
      }
    }
  }
  json out(const std::string &Fam) {
    json R;
    R["fam"] = Fam;
    R["samples"] = json::array();
    for (auto &S : Samples) R["samples"].push_back(Enc(S));
    R["jm"] = json::array();
    for (auto &A : Samples) {
      json Row = json::array();
      for (auto &B : Samples) Row.push_back(Enc(Join(A, B)));
      R["jm"].push_back(Row);
    }
    R["nodes"] = Info;
    R["eq"] = json::array();
    for (auto &A : Nodes) {
      json Row = json::array();
      for (auto &B : Nodes) {
        bool E = A == B;
        if (E == (A != B)) throw std::runtime_error("== and != agree");
        Row.push_back(E);
      }
      R["eq"].push_back(Row);
    }
    return R;
  }
};
