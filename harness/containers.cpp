// Replays operation sequences on the real utility containers and records what
// every operation returned and what the containers then contain
// (traces of spec/Containers.tla).
#include "phasar/DataFlow/Mono/Contexts/CallStringCTX.h"
#include "phasar/Utils/BitVectorSet.h"
#include "phasar/Utils/EquivalenceClassMap.h"
#include "phasar/Utils/StableVector.h"
#include "phasar/Utils/Table.h"
#include "phasar/Utils/Utilities.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <iostream>
#include <map>
#include <stdexcept>
using nlohmann::json;
static constexpr int NObj = 3;

template <typename Cmp> json matrix(Cmp C) {
  json M = json::array();
  for (int I = 0; I < NObj; ++I) {
    json R = json::array();
    for (int J = 0; J < NObj; ++J)
      R.push_back(bool(C(I, J)));
    M.push_back(R);
  }
  return M;
}
template <typename Hash> json hashes(Hash H) {
  json R = json::array();
  std::vector<size_t> Seen;
  for (int I = 0; I < NObj; ++I) {
    size_t V = H(I);
    auto It = std::find(Seen.begin(), Seen.end(), V);
    if (It == Seen.end())
      It = Seen.insert(Seen.end(), V);
    R.push_back(It - Seen.begin());
  }
  return R;
}

// ---- BitVectorSet --------------------------------------------------------
using BVS = psr::BitVectorSet<int>;
static json runBVS(const json &Ops) {
  std::vector<BVS> O(NObj);
  json Out = json::array();
  for (const json &Op : Ops) {
    std::string N = Op["o"];
    int I = Op["i"], J = Op.value("j", 0), E = Op.value("e", 0);
    json Ret = 0;
    if (N == "insert")
      O[I].insert(E);
    else if (N == "insertset")
      O[I].insert(O[J]);
    else if (N == "insertrange") {
      std::vector<int> V = Op["es"];
      O[I].insert(V.begin(), V.end());
    } else if (N == "fromrange") {
      std::vector<int> V = Op["es"];
      O[I] = BVS(V.begin(), V.end());
    } else if (N == "sized")
      O[I] = BVS(size_t(E));
    else if (N == "erase")
      O[I].erase(E);
    else if (N == "eraseset")
      O[I].erase(O[J]);
    else if (N == "clear")
      O[I].clear();
    else if (N == "reserve")
      O[I].reserve(E);
    else if (N == "union")
      O[I] = O[I].setUnion(O[J]);
    else if (N == "inter")
      O[I] = O[I].setIntersect(O[J]);
    else if (N == "unionwith")
      O[I].setUnionWith(O[J]);
    else if (N == "interwith")
      O[I].setIntersectWith(O[J]);
    else if (N == "intersectWith")
      psr::intersectWith(O[I], O[J]);
    else if (N == "copy")
      O[I] = O[J];
    else if (N == "move") {
      BVS T(std::move(O[J]));
      O[J] = BVS();
      O[I] = std::move(T);
    } else if (N == "count")
      Ret = json(bool(O[I].count(E) && O[I].find(E))) ;
    else if (N == "includes")
      Ret = O[I].includes(O[J]);
    else if (N == "iterins") { // iterate one set while inserting into another
      Ret = json::array();
      size_t Bound = O[I].size() + 4;
      int K = 0;
      for (int X : O[I]) {
        Ret.push_back(X);
        if (Ret.size() > Bound)
          break;
        O[J].insert(E + K++);
      }
    } else if (N == "arith") {
      Ret = json::array();
      const BVS &C = O[I];
      size_t S = C.size();
      auto It0 = C.begin();
      auto End = C.end();
      Ret.push_back(int(End - It0));
      json Adv = json::array(), Post = json::array();
      for (size_t K = 0; K < S; ++K) {
        auto A = C.begin();
        Adv.push_back(*(A + K));
        auto P = C.begin();
        P += K;
        Post.push_back(*P);
      }
      Ret.push_back(Adv);
      Ret.push_back(Post);
    } else
      throw std::runtime_error("op " + N);
    json Objs = json::array(), Sizes = json::array();
    for (auto &S : O) {
      json L = json::array();
      size_t B = S.size() + 4;
      const BVS &CS = S;
      for (auto It = CS.begin(), End = CS.end(); It != End && L.size() < B; It++)
        L.push_back(*It);
      json L2 = json::array();
      for (int X : S) {
        L2.push_back(X);
        if (L2.size() > B)
          break;
      }
      Objs.push_back(L == L2 ? L : json::array({-1, -1}));
      Sizes.push_back({S.size(), S.empty()});
    }
    Out.push_back({{"r", Ret}, {"objs", Objs}, {"sizes", Sizes},
                   {"eq", matrix([&](int A, int B) { return O[A] == O[B]; })},
                   {"ne", matrix([&](int A, int B) { return O[A] != O[B]; })},
                   {"lt", matrix([&](int A, int B) { return O[A] < O[B]; })},
                   {"h", hashes([&](int A) { return size_t(hash_value(O[A])); })}});
  }
  return Out;
}

// ---- EquivalenceClassMap ---------------------------------------------------
using ECM = psr::EquivalenceClassMap<int, long>;
static json runECM(const json &Ops) {
  std::vector<ECM> O(NObj);
  json Out = json::array();
  for (const json &Op : Ops) {
    std::string N = Op["o"];
    int I = Op["i"], J = Op.value("j", 0), K = Op.value("k", 0);
    long V = Op.value("v", 0);
    json Ret = 0;
    auto Ins = [&](auto P) { Ret = json::array({*P.first, P.second}); };
    if (N == "insert") {
      int Style = Op["s"];
      const int CK = K;
      if (Style == 0)
        Ins(O[I].insert(CK, V));
      else if (Style == 1)
        Ins(O[I].insert(int(K), V));
      else if (Style == 2) {
        std::pair<int, long> P{K, V};
        const auto &CP = P;
        Ins(O[I].insert(CP));
      } else if (Style == 3)
        Ins(O[I].insert(std::pair<int, long>{K, V}));
      else if (Style == 4)
        Ins(O[I].try_emplace(CK, V));
      else
        Ins(O[I].try_emplace(int(K), V));
    } else if (N == "fromrange") {
      std::vector<std::pair<int, long>> P;
      for (auto &X : Op["kvs"])
        P.emplace_back(X[0], X[1]);
      O[I] = ECM(P.begin(), P.end());
    } else if (N == "insertrange") {
      std::vector<std::pair<int, long>> P;
      for (auto &X : Op["kvs"])
        P.emplace_back(X[0], X[1]);
      O[I].insert(P.begin(), P.end());
    } else if (N == "clear")
      O[I].clear();
    else if (N == "copy")
      O[I] = O[J];
    else if (N == "count")
      Ret = O[I].count(K);
    else if (N == "find") {
      auto It = O[I].find(K);
      auto FV = O[I].findValue(K);
      Ret = json::array();
      if (It != O[I].end())
        Ret.push_back(It->second);
      if (FV)
        Ret.push_back(*FV);
    } else
      throw std::runtime_error("op " + N);
    json Objs = json::array(), Sizes = json::array();
    for (auto &S : O) {
      json L = json::array();
      for (auto &C : S.equivalenceClasses())
        L.push_back({{"k", C.first}, {"v", C.second}});
      Objs.push_back(L);
      Sizes.push_back({S.size(), S.numEquivalenceClasses()});
    }
    Out.push_back({{"r", Ret}, {"objs", Objs}, {"sizes", Sizes}});
  }
  return Out;
}

// ---- Table ------------------------------------------------------------------
using Tab = psr::Table<int, int, int>;
static json runTable(const json &Ops) {
  std::vector<Tab> O(NObj);
  json Out = json::array();
  auto Pairs = [](const std::unordered_map<int, int> &M) {
    json L = json::array();
    for (auto [A, B] : M)
      L.push_back({A, B});
    return L;
  };
  for (const json &Op : Ops) {
    std::string N = Op["o"];
    int I = Op["i"], J = Op.value("j", 0), R = Op.value("r", 0), C = Op.value("c", 0), V = Op.value("v", 0);
    const Tab &CT = O[I];
    json Ret = 0;
    if (N == "insert")
      O[I].insert(R, C, V);
    else if (N == "getmut") {
      int &X = O[I].get(R, C);
      Ret = X;
      X = V;
    } else if (N == "get")
      Ret = CT.get(R, C);
    else if (N == "remove2")
      Ret = O[I].remove(R, C);
    else if (N == "remove1")
      O[I].remove(R);
    else if (N == "rowmut") {
      auto &X = O[I].row(R);
      Ret = Pairs(X);
      X[C] = V;
    } else if (N == "row")
      Ret = Pairs(CT.row(R));
    else if (N == "column")
      Ret = Pairs(CT.column(C));
    else if (N == "contains")
      Ret = json::array({CT.contains(R, C), CT.containsRow(R), CT.containsColumn(C)});
    else if (N == "clear")
      O[I].clear();
    else if (N == "copy")
      O[I] = Tab(O[J]);
    else if (N == "move") {
      Tab T(std::move(O[J]));
      O[J] = Tab();
      O[I] = std::move(T);
    } else
      throw std::runtime_error("op " + N);
    json Objs = json::array(), Sizes = json::array();
    for (auto &S : O) {
      const Tab &CS = S;
      json L = json::array(), L2 = json::array(), L3 = json::array();
      std::set<std::tuple<int, int, int>> A, B, D, F;
      for (auto &X : CS.cellVec()) {
        L.push_back({X.getRowKey(), X.getColumnKey(), X.getValue()});
        A.emplace(X.Row, X.Column, X.Value);
      }
      for (auto &X : CS.cellSet())
        B.emplace(X.Row, X.Column, X.Value);
      CS.foreachCell([&](int R, int C, int V) { D.emplace(R, C, V); });
      for (auto &[R, M] : CS.rowMap())
        for (auto &[C, V] : M)
          F.emplace(R, C, V);
      size_t N = CS.cellSet().size();
      if (A != B || A != D || A != F || N != L.size())
        L = json::array({json::array({-1, -1, -1}), json::array({-1, -1, -1})});
      Objs.push_back(L);
      Sizes.push_back({CS.size(), CS.empty()});
    }
    Out.push_back({{"r", Ret}, {"objs", Objs}, {"sizes", Sizes},
                   {"eq", matrix([&](int A, int B) { return O[A] == O[B]; })}});
  }
  return Out;
}

// ---- StableVector -------------------------------------------------------------
struct Elem {
  static inline long Live = 0;
  std::unique_ptr<int> V;
  explicit Elem(int X) : V(new int(X)) { ++Live; }
  Elem(const Elem &O) : V(new int(*O.V)) { ++Live; }
  Elem(Elem &&O) noexcept : V(new int(*O.V)) { ++Live; }
  Elem &operator=(const Elem &O) {
    *V = *O.V;
    return *this;
  }
  Elem &operator=(Elem &&O) noexcept {
    *V = *O.V;
    return *this;
  }
  ~Elem() { --Live; }
  bool operator==(const Elem &O) const { return *V == *O.V; }
};
using SV = psr::StableVector<Elem>;
static json runSV(const json &Ops) {
  json Out = json::array();
  Elem::Live = 0;
  {
    std::vector<SV> O(NObj);
    std::vector<std::vector<Elem *>> Refs(NObj);
    for (const json &Op : Ops) {
      std::string N = Op["o"];
      int I = Op["i"], J = Op.value("j", 0), K = Op.value("n", 0), V = Op.value("v", 0);
      json Ret = 0;
      if (N == "push") {
        for (int X = 0; X < K; ++X) {
          if (X % 3 == 0)
            Refs[I].push_back(&O[I].emplace_back(V + X));
          else {
            Elem E(V + X);
            if (X % 3 == 1)
              O[I].push_back(E);
            else
              O[I].push_back(std::move(E));
            Refs[I].push_back(&O[I].back());
          }
        }
      } else if (N == "pushself") { // argument is a reference into the vector
        if (!O[I].empty()) {
          O[I].push_back(O[I][0]);
          Refs[I].push_back(&O[I].back());
        }
      } else if (N == "pop") {
        for (int X = 0; X < K && !O[I].empty(); ++X) {
          O[I].pop_back();
          Refs[I].pop_back();
        }
      } else if (N == "popval") {
        Ret = -1;
        if (!O[I].empty()) {
          Ret = *O[I].pop_back_val().V;
          Refs[I].pop_back();
        }
      } else if (N == "popn") {
        size_t M = std::min<size_t>(K, O[I].size());
        O[I].pop_back_n(M);
        Refs[I].resize(Refs[I].size() - M);
      } else if (N == "clear") {
        O[I].clear();
        Refs[I].clear();
      } else if (N == "shrink")
        O[I].shrink_to_fit();
      else if (N == "clone") {
        if (I != J) {
          O[I] = O[J].clone();
          Refs[I].clear();
          for (Elem &E : O[I])
            Refs[I].push_back(&E);
        }
      } else if (N == "move") {
        if (I != J) {
          SV T(std::move(O[J]));
          O[J].clear(); // moved-from object is reusable
          O[I] = std::move(T);
          Refs[I] = std::move(Refs[J]);
          Refs[J].clear();
        }
      } else if (N == "swap") {
        if (K)
          swap(O[I], O[J]);
        else
          O[I].swap(O[J]);
        std::swap(Refs[I], Refs[J]);
      } else if (N == "set") {
        if (size_t(K) < O[I].size())
          O[I][K] = Elem(V);
      } else if (N == "frontback") {
        Ret = json::array();
        if (!O[I].empty()) {
          const SV &C = O[I];
          Ret = json::array({*C.front().V, *C.back().V, *O[I].front().V, *O[I].back().V});
        }
      } else
        throw std::runtime_error("op " + N);
      bool RefsOk = true;
      json Objs = json::array(), Sizes = json::array();
      json Seen = json::array();
      long Total = 0;
      for (int X = 0; X < NObj; ++X) {
        const SV &C = O[X];
        Total += C.size();
        json L = json::array();
        RefsOk &= Refs[X].size() == C.size();
        std::vector<int> ByIdx, ByIt, ByRef;
        for (size_t Y = 0; Y < C.size(); ++Y) {
          ByIdx.push_back(*C[Y].V);
          RefsOk &= RefsOk && &C[Y] == Refs[X][Y];
        }
        for (auto *P : Refs[X])
          ByRef.push_back(*P->V);
        for (const Elem &E : C)
          ByIt.push_back(*E.V);
        std::vector<int> ByIt2;
        for (SV::const_iterator It = O[X].begin(), E = O[X].end(); It != E; It++)
          ByIt2.push_back(*It->V);
        if (ByIdx != ByIt || ByIdx != ByRef || ByIdx != ByIt2)
          RefsOk = false;
        Objs.push_back(X == I || X == J ? json(ByIdx) : json::array());
        Seen.push_back(X == I || X == J);
        Sizes.push_back({C.size(), C.empty()});
      }
      Out.push_back({{"r", Ret}, {"objs", Objs}, {"sizes", Sizes}, {"seen", Seen}, {"refs", RefsOk}, {"live", Elem::Live - Total},
                     {"eq", matrix([&](int A, int B) { return O[A] == O[B]; })},
                     {"ne", matrix([&](int A, int B) { return O[A] != O[B]; })}});
    }
  }
  Out.push_back({{"left", Elem::Live}});
  return Out;
}

// ---- CallStringCTX --------------------------------------------------------------
template <unsigned K> static json runCTX(const json &Ops) {
  using CTX = psr::CallStringCTX<int, K>;
  std::vector<CTX> O(NObj);
  json Out = json::array();
  for (const json &Op : Ops) {
    std::string N = Op["o"];
    int I = Op["i"], J = Op.value("j", 0), E = Op.value("e", 0);
    json Ret = 0;
    if (N == "push")
      O[I].push_back(E);
    else if (N == "pop")
      Ret = O[I].pop_back();
    else if (N == "copy")
      O[I] = O[J];
    else if (N == "init") {
      try {
        int L = Op["n"];
        if (L == 0)
          O[I] = CTX({});
        else if (L == 1)
          O[I] = CTX({E});
        else if (L == 2)
          O[I] = CTX({E, E + 1});
        else
          O[I] = CTX({E, E + 1, E + 2});
        Ret = 0;
      } catch (const std::runtime_error &) {
        Ret = 1;
      }
    } else
      throw std::runtime_error("op " + N);
    json Objs = json::array(), Sizes = json::array();
    for (auto &S : O) {
      CTX C = S;
      json L = json::array();
      while (!C.empty() && L.size() < 20)
        L.push_back(C.pop_back());
      std::reverse(L.begin(), L.end());
      Objs.push_back(L);
      Sizes.push_back({S.size(), S.empty()});
    }
    Out.push_back({{"r", Ret}, {"objs", Objs}, {"sizes", Sizes},
                   {"eq", matrix([&](int A, int B) { return O[A] == O[B]; })},
                   {"ne", matrix([&](int A, int B) { return O[A] != O[B] && O[A].isDifferent(O[B]); })},
                   {"lt", matrix([&](int A, int B) { return O[A] < O[B]; })},
                   {"h", hashes([&](int A) { return std::hash<CTX>{}(O[A]); })}});
  }
  return Out;
}

int main(int argc, char **argv) {
  json In;
  std::ifstream(argv[1]) >> In;
  json Out = json::array();
  for (const json &T : In) {
    std::string K = T["kind"];
    const json &Ops = T["ops"];
    std::ofstream(argv[3]) << Out.size() << " " << K; // for crash reports
    if (K == "bvs")
      Out.push_back(runBVS(Ops));
    else if (K == "ecm")
      Out.push_back(runECM(Ops));
    else if (K == "table")
      Out.push_back(runTable(Ops));
    else if (K == "sv")
      Out.push_back(runSV(Ops));
    else if (K == "ctx")
      switch (int(T["K"])) {
      case 0: Out.push_back(runCTX<0>(Ops)); break;
      case 1: Out.push_back(runCTX<1>(Ops)); break;
      case 2: Out.push_back(runCTX<2>(Ops)); break;
      default: Out.push_back(runCTX<3>(Ops)); break;
      }
  }
  std::ofstream(argv[2]) << Out;
}
