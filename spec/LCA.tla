-------------------------------- MODULE LCA --------------------------------
(***************************************************************************)
(* Linear constant propagation: whatever constant the analysis reports for  *)
(* a register, or for the integer a pointer refers to, is the value every   *)
(* execution of MiniIR has there when it is about to execute the statement. *)
(* Conversely (Complete): a value that is derived by the same assignments   *)
(* and linear operations in all executions of an acyclic program is         *)
(* reported.                                                                *)
(***************************************************************************)
EXTENDS MiniIR, Json, IOUtils

Progs == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl  == JsonDeserialize(IOEnv.VF_RESULTS)
MaxLevel == atoi(IOEnv.VF_LEVEL)
Collect == IOEnv.VF_COLLECT = "1"

VARIABLES idx, st
vars == <<idx, st>>
Init == idx \in DOMAIN Progs /\ st = InitState(Progs[idx])
Next == /\ st' \in Steps(Progs[idx], st)
        /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < MaxLevel

P == Progs[idx]
Top == Last(st.stk)
Seen1(s, v) == IF Len(s.mem[v[2]].c) > 1 THEN Merged("lca", Cell(s, v)) ELSE Cell(s, v)
\* the value the analysis speaks about when it reports a value for fact d
Denoted(d) ==
  LET v == IF d[1] = "g" THEN <<"p", d[2], 0, 0>> ELSE Top.r[d[2]]
  IN IF v[1] = "p" THEN (IF Deref(st, v) THEN Seen1(st, v) ELSE X("")) ELSE v
\* The analysis does not know about aliases.  The generated programs compute the
\* address of an element right before they use it, and only there it speaks about it.
Speaks(d) == d[1] = "g" \/
  LET F == P.funs[Top.f] k == d[2] - F.np s == F.code[Top.pc] IN
  \/ k <= 0
  \/ F.code[k].op # "gep"
  \/ s.op \in {"load", "call"} /\ \E a \in Range(s.a) : a[1] = "r" /\ a[2] = d[2]
Run(r) == Impl[idx][r][Top.f][Top.pc]
Sound ==
  ~st.done => \A r \in DOMAIN Impl[idx] : \A q \in Range(Run(r)) :
     /\ q[1] # "foreign"
     /\ LET v == Denoted(q) IN (Speaks(q) /\ v[1] # "x") => (v[1] = "i" /\ v[2] = q[3])

\* ---- completeness -----------------------------------------------------------
\* (elements of aggregates are not demanded)
Aggregate(k) == LET F == P.funs[Top.f] IN k > F.np /\ (F.code[k - F.np].op = "gep" \/ (F.code[k - F.np].op = "alloca" /\ F.code[k - F.np].x[1] > 1))
Facts == {<<"r", k>> : k \in {k \in DOMAIN Top.r : Top.r[k][1] # "x" /\ Speaks(<<"r", k>>) /\ ~Aggregate(k)}} \cup {<<"g", k>> : k \in DOMAIN P.globs}
Seen == {<<idx, Top.f, Top.pc, d, Denoted(d)>> : d \in Facts}
\* one register of the model checker per program (1 worker)
ASSUME Collect => \A k \in DOMAIN Progs : TLCSet(k, {})
Note(S) == LET old == TLCGet(idx) IN IF S \subseteq old THEN TRUE ELSE TLCSet(idx, old \cup S)
\* executions that end early (undefined behaviour, numbers the model does not follow)
\* are paths to the analysis: nothing is demanded of such programs
Collected == IF st.done THEN TRUE ELSE Note(IF Steps(P, st) = {} THEN {<<idx, 0, 0, <<"r", 0>>, X("")>>} ELSE Seen)
Agreed(all) == {t \in all : \A u \in all : (u[2] = t[2] /\ u[3] = t[3] /\ u[4] = t[4]) => u = t}
Missing(k) ==
  {t \in IF <<k, 0, 0, <<"r", 0>>, X("")>> \in TLCGet(k) THEN {} ELSE Agreed(TLCGet(k)) :
     /\ t[5][1] = "i" /\ t[5][4] # Nonlinear
     /\ \E r \in DOMAIN Impl[k] : ~\E q \in Range(Impl[k][r][t[2]][t[3]]) : <<q[1], q[2]>> = t[4] /\ q[3] = t[5][2]}
Complete ==
  LET bad == UNION {Missing(k) : k \in DOMAIN Progs} IN
  IF bad = {} THEN TRUE ELSE PrintT(<<"VF", "missing", bad>>) /\ FALSE
============================================================================
