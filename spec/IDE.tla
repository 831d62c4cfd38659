------------------------------- MODULE IDE -------------------------------
(***************************************************************************)
(* Interprocedural distributive environments (IDE) over explicit finite    *)
(* supergraphs.  An instance I is a record (see lib/gen_esg.py): nodes,     *)
(* functions, facts 1..nd (fact 1 is the zero fact) and, per supergraph     *)
(* edge, a distributive flow function given as a relation on facts with an  *)
(* edge function on every exploded edge.                                    *)
(*                                                                          *)
(* Values: the powerset lattice over three elements as bit masks 0..7;      *)
(* join is bitwise or, top is 0, bottom is 7.  Edge functions: total maps   *)
(* on the lattice, as sequences of 8 (only union-distributive ones occur).  *)
(*                                                                          *)
(* This module is the vocabulary shared by the tabulation algorithm         *)
(* (Tabulation.tla), the definition by valid paths (Walk.tla) and the       *)
(* conformance specifications.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Zero == 1
Top == 0
Bot == 7
Bit(m, k) == (m \div (CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4)) % 2
OrTab == TLCEval([x \in 1..8 |-> [y \in 1..8 |->
           LET b(k) == IF Bit(x - 1, k) = 1 \/ Bit(y - 1, k) = 1 THEN 1 ELSE 0
           IN b(0) + 2 * b(1) + 4 * b(2)]])
Or(x, y) == OrTab[x + 1][y + 1]
RECURSIVE OrAll(_)
OrAll(S) == IF S = {} THEN Top ELSE LET x == CHOOSE x \in S : TRUE IN Or(x, OrAll(S \ {x}))

\* ---- edge functions -------------------------------------------------
IdF == <<0, 1, 2, 3, 4, 5, 6, 7>>
Apply(f, x) == f[x + 1]
Comp(f, g) == TLCEval([x \in 1..8 |-> g[f[x] + 1]])       \* first f, then g
JoinF(f, g) == TLCEval([x \in 1..8 |-> Or(f[x], g[x])])
EF(I, k) == IF k = 0 THEN IdF ELSE I.t.ef[k]

\* TLC evaluates a LET definition anew at every use inside an action; Bind evaluates v once
Bind(v, F(_)) == CHOOSE y \in {F(x) : x \in {v}} : TRUE

Range(s) == {s[k] : k \in DOMAIN s}

\* ---- supergraph -----------------------------------------------------
Nodes(I) == 1..I.nn
Facts(I) == 1..I.nd
Funs(I)  == 1..I.nf
FunOf(I, n) == I.nodes[n].fun
IsCall(I, n) == I.nodes[n].call
IsExit(I, n) == I.nodes[n].exit
Succs(I, n) == Range(I.nodes[n].succs)
Starts(I, f) == Range(I.starts[f])
IsStart(I, n) == n \in Starts(I, FunOf(I, n))
\* callees whose bodies are entered (a special summary replaces the body)
CallEntries(I, n) == {c \in Range(I.t.call[n]) : ~c.sum}

\* automatic zero: a flow function maps the zero fact at least to itself
ZeroTo(I, d, targets, S) ==
  \* S: set of <<m, t, e>>; adds <<m, Zero, 0>> for every target m lacking one
  IF I.autozero /\ d = Zero
  THEN S \cup {<<m, Zero, 0>> : m \in {m \in targets : ~\E p \in S : p[1] = m /\ p[2] = Zero}}
  ELSE S

\* exploded intra-procedural edges <<m, d', e>> leaving (n, d):
\* normal flow, or call-to-return flow plus special-summary flow
Intra(I, n, d) ==
  IF IsCall(I, n)
  THEN ZeroTo(I, d, Succs(I, n), Range(I.t.ctr[n][d])) \cup Range(I.t.summ[n][d])
  ELSE ZeroTo(I, d, Succs(I, n), Range(I.t.norm[n][d]))

\* call edges <<f, d', e>> leaving (n, d)
CallEdges(I, n, d) ==
  UNION {LET S == {<<c.f, p[1], p[2]>> : p \in Range(c.m[d])}
         IN ZeroTo(I, d, {c.f}, S) : c \in CallEntries(I, n)}

\* return edges <<r, d', e>> from exit x of f, fact d, to the return sites of call c
RetEdges(I, c, f, x, d) ==
  UNION {LET S == {<<q.r, p[1], p[2]>> : p \in Range(q.m[d])}
         IN ZeroTo(I, d, {q.r}, S) : q \in {q \in Range(I.t.ret[c]) : q.f = f /\ q.e = x}}

\* seeds <<n, d, V>>; the zero fact is seeded (with bottom) wherever a seed is
SeedNodes(I) == {s[1] : s \in Range(I.seeds)}
SeedSet(I) == {<<s[1], s[2], s[3]>> : s \in Range(I.seeds)}
              \cup {<<n, Zero, Bot>> : n \in {n \in SeedNodes(I) : ~\E s \in Range(I.seeds) : s[1] = n /\ s[2] = Zero}}
=============================================================================
