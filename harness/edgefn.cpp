// Header-only edge functions on toy lattices.
#include "edgefn.h"
#include "phasar/Domain/BinaryDomain.h"
using namespace psr;
namespace psr {
llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, BinaryDomain B) { return OS << int(B); }
}
// a powerset lattice over {1,2,3}: top = {}, bottom = {1,2,3}
struct PV {
  uint32_t M = 0;
  friend bool operator==(PV A, PV B) { return A.M == B.M; }
  friend bool operator!=(PV A, PV B) { return A.M != B.M; }
  friend llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, PV V) { return OS << V.M; }
};
namespace psr {
template <> struct JoinLatticeTraits<PV> {
  static constexpr PV top() noexcept { return {0}; }
  static constexpr PV bottom() noexcept { return {7}; }
  static PV join(PV A, PV B) noexcept { return {A.M | B.M}; }
};
} // namespace psr
using FV = LatticeDomain<int64_t>;

template <typename L> L apply(int A, int B, const L &S);
template <> FV apply(int A, int B, const FV &S) {
  if (auto *V = S.getValueOrNull()) return FV(((*V) * A + B) % 4);
  return S;
}
template <> PV apply(int A, int B, const PV &S) { return {(S.M & A) | B}; }
template <> BinaryDomain apply(int A, int B, const BinaryDomain &S) { return A ? S : BinaryDomain(B & 1); }

template <typename L, uint8_t N> struct Comp : EdgeFunctionComposer<L> {
  static EdgeFunction<L> join(EdgeFunctionRef<Comp> This, const EdgeFunction<L> &O) {
    if (auto D = defaultJoinOrNull<L, N>(This, O)) return D;
    if constexpr (N > 0) return JoinEdgeFunction<L, N>::create(This, O);
    else return AllBottom<L>{};
  }
};
// x -> a*x+b (flat) or (x & a) | b (powerset)
template <typename L, uint8_t N, typename Pad> struct Lin {
  using l_t = L;
  int16_t A, B;
  [[no_unique_address]] Pad P{};
  L computeTarget(ByConstRef<L> S) const { return apply<L>(A, B, S); }
  static EdgeFunction<L> compose(EdgeFunctionRef<Lin> This, const EdgeFunction<L> &G) {
    if (auto D = defaultComposeOrNull(This, G)) return D;
    return Comp<L, N>{{This, G}};
  }
  static EdgeFunction<L> join(EdgeFunctionRef<Lin> This, const EdgeFunction<L> &O) {
    if (auto D = defaultJoinOrNull<L, N>(This, O)) return D;
    if constexpr (N > 0) return JoinEdgeFunction<L, N>::create(This, O);
    else return AllBottom<L>{};
  }
  friend bool operator==(const Lin &X, const Lin &Y) noexcept { return X.A == Y.A && X.B == Y.B; }
  friend llvm::hash_code hash_value(const Lin &X) noexcept { return llvm::hash_combine(X.A % 2); }
};
struct Empty {};
struct Big { char C[32] = {}; };

template <typename L, uint8_t N>
json runCore(const json &Spec, const std::string &Fam, std::vector<L> Samples, std::function<json(const L &)> Enc, std::function<L(const json &)> Dec) {
  DefaultEdgeFunctionSingletonCache<Lin<L, N, Big>> Cache;
  Algebra<L> Al;
  Al.Samples = Samples;
  Al.Enc = Enc;
  Al.Join = [](L A, L B) { return JoinLatticeTraits<L>::join(A, B); };
  for (const auto &Le : Spec["leaves"]) {
    std::string K = Le["k"];
    int A = Le["a"], B = Le["b"];
    if (K == "id") Al.leaf(EdgeIdentity<L>{}, Le);
    else if (K == "top") Al.leaf(AllTop<L>{}, Le);
    else if (K == "bot") Al.leaf(AllBottom<L>{}, Le);
    else if (K == "const") Al.leaf(ConstantEdgeFunction<L>{NonTopBotValue<L>::unwrap(Dec(Le["b"]))}, Le);
    else if (K == "lin") Al.leaf(Lin<L, N, Empty>{int16_t(A), int16_t(B)}, Le);
    else if (K == "linh") Al.leaf(Lin<L, N, Big>{int16_t(A), int16_t(B)}, Le);
    else if (K == "linc") Al.leaf(Cache.createEdgeFunction(Lin<L, N, Big>{int16_t(A), int16_t(B)}), Le);
    else throw std::runtime_error(K);
  }
  Al.ops(Spec["ops"]);
  return Al.out(Fam);
}
template <uint8_t N> json dispatch(const json &S) {
  std::string Fam = S["fam"];
  if (Fam == "flat")
    return runCore<FV, N>(S, Fam, {FV(Top{}), FV(0), FV(1), FV(2), FV(3), FV(Bottom{})},
                   [](const FV &V) { return V.isTop() ? enc("T", 0) : V.isBottom() ? enc("B", 0) : enc("V", V.assertGetValue()); },
                   [](const json &J) { return FV(J.get<int64_t>()); });
  if (Fam == "pow")
    return runCore<PV, N>(S, Fam, {PV{0}, PV{1}, PV{2}, PV{3}, PV{4}, PV{5}, PV{6}, PV{7}},
                   [](const PV &V) { return enc("V", V.M); }, [](const json &J) { return PV{J.get<uint32_t>()}; });
  return runCore<BinaryDomain, N>(S, Fam, {BinaryDomain::TOP, BinaryDomain::BOTTOM},
                   [](const BinaryDomain &V) { return enc(V == BinaryDomain::TOP ? "T" : "B", 0); },
                   [](const json &J) { return BinaryDomain(J.get<int>() & 1); });
}

// handles: reference counting, copies, moves, the singleton cache
using HL = Lin<FV, 0, Big>;
using SL = Lin<FV, 0, Empty>;
json runHandles(const json &Ops) {
  constexpr int NS = 4;
  DefaultEdgeFunctionSingletonCache<HL> C[2];
  std::vector<EdgeFunction<FV>> S(NS);
  json Out = json::array();
  for (const auto &O : Ops) {
    std::string N = O["o"];
    int I = O["i"], J = O["j"], K = O["k"];
    if (N == "soo") S[I] = SL{1, int16_t(K)};
    else if (N == "heap") S[I] = HL{1, int16_t(K)};
    else if (N == "inplace") S[I] = EdgeFunction<FV>(std::in_place_type<HL>, HL{1, int16_t(K)});
    else if (N == "cache0" || N == "cache1") S[I] = C[N == "cache1"].createEdgeFunction(HL{1, int16_t(K)});
    else if (N == "copy") S[I] = S[J];
    else if (N == "copyctor") { EdgeFunction<FV> T(S[J]); S[I] = T; }
    else if (N == "move") { EdgeFunction<FV> T(std::move(S[J])); S[I] = std::move(T); }
    else if (N == "moveassign") S[I] = std::move(S[J]);
    else if (N == "swap") swap(S[I], S[J]);
    else if (N == "null") S[I] = nullptr;
    else if (N == "ref") { // through EdgeFunctionRef (as compose/join get it)
      if (S[J] && llvm::isa<HL>(S[J])) S[I] = S[J].composeWith(EdgeIdentity<FV>{});
      else S[I] = S[J];
    } else throw std::runtime_error(N);
    json St = json::array();
    for (int A = 0; A < NS; ++A) {
      auto &F = S[A];
      json Row;
      Row["ok"] = F.isValid() && bool(F) && !(F == nullptr);
      Row["val"] = F ? int(F.computeTarget(FV(0)).assertGetValue()) : -1;
      Row["kind"] = !F ? "null" : llvm::isa<SL>(F) ? "soo" : F.isCached() ? (F.template getCacheOrNull<HL>() == &C[1] ? "cache1" : F.template getCacheOrNull<HL>() == &C[0] ? "cache0" : "?") : llvm::isa<HL>(F) ? "heap" : "?";
      Row["rc"] = F.isRefCounted();
      Row["eq"] = json::array();
      Row["same"] = json::array();
      for (int B = 0; B < NS; ++B) {
        Row["eq"].push_back(F == S[B]);
        Row["same"].push_back(F.referenceEquals(S[B]));
      }
      St.push_back(Row);
    }
    Out.push_back({{"op", O}, {"st", St}});
  }
  return Out;
}

int main(int, char **argv) {
  json In = json::parse(std::ifstream(argv[1])), Out;
  Out["dags"] = json::array();
  for (auto &S : In["dags"]) {
    int N = S["n"];
    Out["dags"].push_back(N == 0 ? dispatch<0>(S) : N == 1 ? dispatch<1>(S) : N == 2 ? dispatch<2>(S) : dispatch<4>(S));
  }
  Out["handles"] = json::array();
  for (auto &S : In["handles"]) Out["handles"].push_back(runHandles(S));
  std::ofstream(argv[2]) << Out;
}
