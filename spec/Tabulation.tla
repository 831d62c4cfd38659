---------------------------- MODULE Tabulation ----------------------------
(***************************************************************************)
(* The IDE tabulation algorithm (Sagiv/Horwitz/Reps 1996 with the Incoming *)
(* and EndSummary tables of Naeem/Lhotak/Rodriguez 2010) as a state        *)
(* machine.  One action processes one path edge (or, in batch mode, all    *)
(* pending ones); the order is not determined.                              *)
(***************************************************************************)
EXTENDS IDE

VARIABLES I,      \* the instance
          jf,     \* jump functions: <<d1, n, d2>> -> edge function
          wl,     \* path edges to be processed
          inc,    \* Incoming: <<f, d3, c, d4>>
          sums,   \* EndSummary: <<f, d1, x, d2>> (function value is jf[<<d1,x,d2>>])
          phase   \* "tab" | "done"
vars == <<I, jf, wl, inc, sums, phase>>

TabInit ==
  /\ LET S == {<<s[2], s[1], s[2]>> : s \in SeedSet(I)}
     IN /\ jf = [e \in S |-> IdF]
        /\ wl = S
  /\ inc = {}
  /\ sums = {}
  /\ phase = "tab"

\* caller-side effect of a call from (c, d4), entered with d1, left at exit x with d2
\* yields <<edge, function>> pairs for every jump function reaching (c, d4)
ReturnInto(j, c, d4, f, d1, x, d2) ==
  LET fs == j[<<d1, x, d2>>]
      into == {e \in DOMAIN j : e[2] = c /\ e[3] = d4}
  IN UNION {{<<<<e[1], r[1], r[2]>>, Comp(Comp(Comp(j[e], EF(I, ce[3])), fs), EF(I, r[3]))>> :
                 r \in RetEdges(I, c, f, x, d2), e \in into} :
            ce \in {ce \in CallEdges(I, c, d4) : ce[1] = f /\ ce[2] = d1}}

\* contributions of processing path edge e with tables nInc/nSums
Contrib(j, e, nInc, nSums) ==
  LET d1 == e[1]  n == e[2]  d2 == e[3]  F == j[e]  f == FunOf(I, n)
      intra == {<<<<d1, p[1], p[2]>>, Comp(F, EF(I, p[3]))>> : p \in Intra(I, n, d2)}
      calls == IF IsCall(I, n)
               THEN {<<<<p[2], sp, p[2]>>, IdF>> : <<p, sp>> \in
                       {<<p, sp>> \in CallEdges(I, n, d2) \X Nodes(I) : sp \in Starts(I, p[1])}}
               ELSE {}
      reuse == IF IsCall(I, n)
               THEN UNION {ReturnInto(j, n, d2, s[1], s[2], s[3], s[4]) :
                           s \in {s \in nSums : \E p \in CallEdges(I, n, d2) : p[1] = s[1] /\ p[2] = s[2]}}
               ELSE {}
      exits == IF IsExit(I, n)
               THEN UNION {ReturnInto(j, c[3], c[4], f, d1, n, d2) :
                           c \in {c \in nInc : c[1] = f /\ c[2] = d1}}
               ELSE {}
  IN intra \cup calls \cup reuse \cup exits

NewInc(E) == UNION {IF IsCall(I, e[2]) THEN {<<p[1], p[2], e[2], e[3]>> : p \in CallEdges(I, e[2], e[3])} ELSE {} : e \in E}
NewSums(E) == {<<FunOf(I, e[2]), e[1], e[2], e[3]>> : e \in {e \in E : IsExit(I, e[2])}}

JoinAll(S) == [x \in 1..8 |-> OrAll({f[x] : f \in S})]

\* Returns past seeds <<edge, function>>: from an exit into the return sites of all
\* callers, starting a jump function at the zero fact.  Allowed for <<f, d1>> \in past.
Unbalanced(j, e, past) ==
  IF IsExit(I, e[2]) /\ <<FunOf(I, e[2]), e[1]>> \in past
  THEN UNION {{<<<<Zero, r[1], r[2]>>, Comp(j[e], EF(I, r[3]))>> : r \in RetEdges(I, c, FunOf(I, e[2]), e[2], e[3])} :
              c \in {c \in Nodes(I) : IsCall(I, c)}}
  ELSE {}

\* one step over the pending path edges E (E a non-empty subset of wl), bottom-up:
\* contributions C; per node; joined per target; which of them are new
StepNew(val) == {t \in DOMAIN val : t \notin DOMAIN jf \/ val[t] # jf[t]}
StepVals(at) == [t \in {c[1] : c \in UNION Range(at)} |->
                   LET g == JoinAll({c[2] : c \in {c \in at[t[2]] : c[1] = t}})
                   IN IF t \in DOMAIN jf THEN JoinF(jf[t], g) ELSE g]
StepJf(val, changed) == [t \in DOMAIN jf \cup changed |-> IF t \in changed THEN val[t] ELSE jf[t]]
StepContribs(E, nInc, nSums, past) ==
  UNION {Contrib(jf, e, nInc, nSums) : e \in E}
  \cup (IF past # {} THEN UNION {Unbalanced(jf, e, past) : e \in E} ELSE {})

\* process the pending path edges E (E a non-empty subset of wl)
ProcessSet(E, past) ==
  \E nInc \in {inc \cup NewInc(E)}, nSums \in {sums \cup NewSums(E)} :
  \E C \in {StepContribs(E, nInc, nSums, past)} :
  \E at \in {[n \in Nodes(I) |-> {c \in C : c[1][2] = n}]} :
  \E val \in {StepVals(at)} :
  \E changed \in {StepNew(val)} :
     /\ jf' = StepJf(val, changed)
     /\ wl' = (wl \ E) \cup changed
     /\ inc' = nInc
     /\ sums' = nSums

ProcessOne(past) == /\ phase = "tab" /\ wl # {}
                    /\ \E e \in wl : ProcessSet({e}, past)
                    /\ UNCHANGED <<I, phase>>
ProcessBatch(past) == /\ phase = "tab" /\ wl # {}
                      /\ ProcessSet(wl, past)
                      /\ UNCHANGED <<I, phase>>
Finish == /\ phase = "tab" /\ wl = {}
          /\ phase' = "done"
          /\ UNCHANGED <<I, jf, wl, inc, sums>>

\* ---- phase II: values -------------------------------------------------
StartFacts == {<<e[1], e[2]>> : e \in {e \in DOMAIN jf : IsStart(I, e[2]) /\ e[1] = e[3]}}
SeedVal(f, d) == OrAll({s[3] : s \in {s \in SeedSet(I) : s[2] = d /\ s[1] \in Starts(I, f)}})
RECURSIVE StartVals(_)
StartVals(V) ==
  LET In == TLCEval(UNION {{<<p[1], p[2], Apply(EF(I, p[3]), Apply(jf[e], V[FunOf(I, e[2])][e[1]]))>> :
                              p \in CallEdges(I, e[2], e[3])} :
                           e \in {e \in DOMAIN jf : IsCall(I, e[2])}})
      W == TLCEval([f \in Funs(I) |-> [d \in Facts(I) |->
              Or(V[f][d], OrAll({q[3] : q \in {q \in In : q[1] = f /\ q[2] = d}}))]])
  IN IF W = V THEN V ELSE StartVals(W)
\* value of every start point fact
V0 == StartVals([f \in Funs(I) |-> [d \in Facts(I) |-> SeedVal(f, d)]])
\* the reported environment: node -> fact -> value (only reached facts)
ReachedAt(n) == {e[3] : e \in {e \in DOMAIN jf : e[2] = n}}
ValueAt(V, n, d) == OrAll({Apply(jf[e], V[FunOf(I, n)][e[1]]) : e \in {e \in DOMAIN jf : e[2] = n /\ e[3] = d}})
=============================================================================
