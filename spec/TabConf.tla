----------------------------- MODULE TabConf -----------------------------
(***************************************************************************)
(* Conformance of the real solver: for every instance, the tabulation      *)
(* state machine runs to completion and the results reported by phasar's   *)
(* solver (loaded from JSON, several ways of running it) have to equal the *)
(* specified ones.                                                         *)
(*                                                                         *)
(* When returns past seeds are followed, whether an exit is "not called    *)
(* within the analysis" may be decided before or after a caller becomes    *)
(* known, so the solver's result depends on its order.  Two runs bound it: *)
(* first the exits of every entry that can be processed without a known    *)
(* caller return past the seeds (upper) - only seeded entries, and the zero *)
(* entry, at which unbalanced returns start: all other entries exist        *)
(* because of a call, which is known by then; then only those of entries   *)
(* that have no caller even in the upper run (lower).                      *)
(***************************************************************************)
EXTENDS Tabulation, Json, IOUtils

Insts == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl  == JsonDeserialize(IOEnv.VF_RESULTS)
VARIABLES idx, mode, upper, past
cvars == <<vars, idx, mode, upper, past>>

CInit == /\ idx \in DOMAIN Insts
         /\ I = Insts[idx]
         /\ TabInit
         /\ mode = IF I.follow THEN "upper" ELSE "exact"
         /\ past = IF I.follow THEN {<<FunOf(I, s[1]), s[2]>> : s \in SeedSet(I)} \cup (Funs(I) \X {Zero}) ELSE {}
         /\ upper = {}
Lower == /\ phase = "done" /\ mode = "upper"
         /\ mode' = "lower"
         /\ upper' = {<<e[2], e[3]>> : e \in DOMAIN jf}
         /\ past' = past \ {<<c[1], c[2]>> : c \in inc}
         /\ LET S == {<<s[2], s[1], s[2]>> : s \in SeedSet(I)}
            IN jf' = [e \in S |-> IdF] /\ wl' = S
         /\ inc' = {} /\ sums' = {} /\ phase' = "tab"
         /\ UNCHANGED <<I, idx>>
CNext == \/ (ProcessBatch(past) \/ Finish) /\ UNCHANGED <<idx, mode, upper, past>>
         \/ Lower
CSpec == CInit /\ [][CNext]_cvars

ReportedFacts(run, n) == {p[1] : p \in Range(run[n])}
ReportedVal(run, n, d) == LET p == CHOOSE p \in Range(run[n]) : p[1] = d IN p[2]

Runs(m) == DOMAIN Impl[idx][m]
FactsMatch == (phase = "done" /\ mode = "exact") =>
  \A m \in {"ide", "ifds"} : \A r \in Runs(m) : \A n \in Nodes(I) :
     ReportedFacts(Impl[idx][m][r], n) = ReachedAt(n)
FactsBounded == (phase = "done" /\ mode = "lower") =>
  \A m \in {"ide", "ifds"} : \A r \in Runs(m) : \A n \in Nodes(I) :
     LET R == ReportedFacts(Impl[idx][m][r], n)
     IN ReachedAt(n) \subseteq R /\ \A d \in R : <<n, d>> \in upper
ValuesMatch == (phase = "done" /\ I.kind \notin {"midseed", "follow"}) =>
  LET V == V0 IN
  \A r \in Runs("ide") : \A n \in Nodes(I) : \A d \in ReachedAt(n) :
     d \in ReportedFacts(Impl[idx]["ide"][r], n) =>
        ReportedVal(Impl[idx]["ide"][r], n, d) = ValueAt(V, n, d)
=============================================================================
