------------------------------- MODULE Walk -------------------------------
(***************************************************************************)
(* IDE by definition: the set W of all configurations <<n, d, stack, v>>   *)
(* that a single walk from a seed can be in, where stack holds the call    *)
(* nodes not yet returned from (so calls and returns match) and v is the   *)
(* seed value transformed by the edge functions along the walk.  One step  *)
(* extends every newest walk by one supergraph edge.  Nothing of the       *)
(* tabulation algorithm is used here: no jump functions, no summaries.     *)
(*                                                                         *)
(* The environment the solver has to report at n is the join of v over all *)
(* configurations at n.  If a walk wanted to nest calls deeper than Depth, *)
(* it is cut; then W only bounds the reported result from below.           *)
(***************************************************************************)
EXTENDS IDE, Json, IOUtils
CONSTANT Depth

Insts == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl  == JsonDeserialize(IOEnv.VF_RESULTS)

VARIABLES idx, I, W, new, cut
vars == <<idx, I, W, new, cut>>

Init == /\ idx \in DOMAIN Insts
        /\ I = Insts[idx]
        /\ W = {<<s[1], s[2], <<>>, s[3]>> : s \in SeedSet(I)}
        /\ new = W
        /\ cut = FALSE

\* exits of functions return to the matching call only; with returns past seeds,
\* a walk with an empty stack may return to any caller (facts only)
Steps(c) ==
  LET n == c[1]  d == c[2]  st == c[3]  v == c[4]  f == FunOf(I, n) IN
  {<<p[1], p[2], st, Apply(EF(I, p[3]), v)>> : p \in Intra(I, n, d)}
  \cup (IF IsCall(I, n) /\ Len(st) < Depth
        THEN UNION {{<<s, p[2], Append(st, n), Apply(EF(I, p[3]), v)>> : s \in Starts(I, p[1])} :
                    p \in CallEdges(I, n, d)}
        ELSE {})
  \cup (IF IsExit(I, n) /\ st # <<>>
        THEN {<<r[1], r[2], SubSeq(st, 1, Len(st) - 1), Apply(EF(I, r[3]), v)>> :
              r \in RetEdges(I, st[Len(st)], f, n, d)}
        ELSE {})
Cuts(c) == IsCall(I, c[1]) /\ Len(c[3]) >= Depth /\ CallEdges(I, c[1], c[2]) # {}

Extend == /\ new # {}
          /\ \E X \in {UNION {Steps(c) : c \in new} \ W} :
                /\ W' = W \cup X
                /\ new' = X
          /\ cut' = (cut \/ \E c \in new : Cuts(c))
          /\ UNCHANGED <<idx, I>>
Spec == Init /\ [][Extend]_vars

Complete == new = {}
FactsAt(n) == {c[2] : c \in {c \in W : c[1] = n}}
JoinAt(n, d) == OrAll({c[4] : c \in {c \in W : c[1] = n /\ c[2] = d}})
ReportedFacts(run, n) == {p[1] : p \in Range(run[n])}
ReportedVal(run, n, d) == LET p == CHOOSE p \in Range(run[n]) : p[1] = d IN p[2]

FactsByPaths == Complete =>
  \A m \in {"ide", "ifds"} : \A r \in DOMAIN Impl[idx][m] : \A n \in Nodes(I) :
    LET R == ReportedFacts(Impl[idx][m][r], n)
    IN FactsAt(n) \subseteq R /\ (cut \/ I.follow \/ R \subseteq FactsAt(n))
ValuesByPaths == (Complete /\ I.kind \notin {"midseed", "follow"}) =>
  \A r \in DOMAIN Impl[idx]["ide"] : \A n \in Nodes(I) : \A d \in FactsAt(n) :
    LET R == ReportedVal(Impl[idx]["ide"][r], n, d)  J == JoinAt(n, d)
    IN IF cut THEN Or(R, J) = R ELSE R = J
=============================================================================
