------------------------------- MODULE Mono -------------------------------
(***************************************************************************)
(* Intra-procedural monotone frameworks on explicit control-flow graphs.   *)
(* Data-flow values are subsets of nb bits (masks); transfer functions are *)
(* monotone tables; the merge is union (top = {}) or intersection (top =   *)
(* everything).  Equations:                                                *)
(*    In[n]  = top + seeds            if n has no predecessors             *)
(*    In[n]  = Merge {Out[p] : p -> n}  otherwise                          *)
(*    Out[n] = Tab[n][In[n]]                                               *)
(* Chaotic iteration from top reaches the least solution (least = closest   *)
(* to top).  The result reported by phasar is Out.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Insts == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl  == JsonDeserialize(IOEnv.VF_RESULTS)
CONSTANT Chaotic        \* TRUE: one node per step, any order; FALSE: all nodes per step

VARIABLES idx, in
vars == <<idx, in>>
I == Insts[idx]
Nodes == 1..I.nn
Range(s) == {s[k] : k \in DOMAIN s}
Bits == 0..(I.nb - 1)
Pow2(b) == CASE b = 0 -> 1 [] b = 1 -> 2 [] b = 2 -> 4 [] b = 3 -> 8 [] b = 4 -> 16
Has(m, b) == (m \div Pow2(b)) % 2 = 1
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN Pow2(b) + Sum(S \ {b})
MergeAll(M) == Sum({b \in Bits : IF I.meet THEN \A m \in M : Has(m, b) ELSE \E m \in M : Has(m, b)})
Top == IF I.meet THEN Sum(Bits) ELSE 0
Preds(n) == {p \in Nodes : n \in Range(I.succs[p])}
SeedAt(n) == {s[2] : s \in {s \in Range(I.seeds) : s[1] = n}}
Out(n) == I.tab[n][in[n] + 1]
Eq(n) == IF Preds(n) = {} THEN Sum({b \in Bits : Has(Top, b) \/ \E m \in SeedAt(n) : Has(m, b)})
         ELSE MergeAll({Out(p) : p \in Preds(n)})

Init == /\ idx \in DOMAIN Insts
        /\ in = [n \in 1..Insts[idx].nn |-> IF Insts[idx].meet THEN Sum(0..(Insts[idx].nb - 1)) ELSE 0]
Unstable(n) == Eq(n) # in[n]
Step == IF Chaotic
        THEN \E n \in Nodes : Unstable(n) /\ in' = [in EXCEPT ![n] = Eq(n)]
        ELSE (\E n \in Nodes : Unstable(n)) /\ in' = [n \in Nodes |-> Eq(n)]
Next == Step /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars

Stable == \A n \in Nodes : ~Unstable(n)
Conforms == Stable => \A r \in DOMAIN Impl[idx] : \A n \in Nodes : Impl[idx][r][n] = Out(n)
=============================================================================
