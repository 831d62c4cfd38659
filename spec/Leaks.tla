------------------------------- MODULE Leaks --------------------------------
(***************************************************************************)
(* Leaks: whenever an execution of MiniIR calls a sink with tainted data    *)
(* (an argument that is tainted, or that points to tainted data), the       *)
(* analysis has reported this argument of this call.  Precise: on simple    *)
(* programs it reports nothing else.                                        *)
(***************************************************************************)
EXTENDS MiniIR, Json, IOUtils

Progs == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl  == JsonDeserialize(IOEnv.VF_RESULTS)
MaxLevel == atoi(IOEnv.VF_LEVEL)
Collect == IOEnv.VF_COLLECT = "1"

VARIABLES idx, st
vars == <<idx, st>>
Init == idx \in DOMAIN Progs /\ st = InitState(Progs[idx])
Next == /\ st' \in Steps(Progs[idx], st)
        /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < MaxLevel

P == Progs[idx]
Top == Last(st.stk)
S == Stmt(P, st)
V(k) == Val(P, Top, S.a[k])
Tainted(v) == v[4] = 1 \/ (Deref(st, v) /\ Cell(st, v)[4] = 1)
\* operands of the statement that leak (operand 1 is the callee)
Leaking ==
  IF S.op # "call" \/ Callee(P, st) = 0 THEN {}
  ELSE {k \in {n + 1 : n \in Range(P.funs[Callee(P, st)].snk)} : Tainted(V(k))}
Operand(k) == LET o == S.a[k] IN <<o[1], o[2]>>
Reported(f, pc) == {<<q[1], q[2]>> : q \in Range(Impl[idx][f][pc])}
Bad == {k \in Leaking : Operand(k) \notin Reported(Top.f, Top.pc)}
Sound == ~st.done => Bad = {}
View == [idx |-> idx, bad |-> IF st.done THEN <<>> ELSE <<Top.f, Top.pc, Bad>>]

\* one register of the model checker per program (1 worker)
ASSUME Collect => \A k \in DOMAIN Progs : TLCSet(k, {})
Note(N) == LET old == TLCGet(idx) IN IF N \subseteq old THEN TRUE ELSE TLCSet(idx, old \cup N)
Collected ==
  IF st.done THEN TRUE
  ELSE Note(IF Steps(P, st) = {} THEN {<<0, 0, <<"", 0>>>>} ELSE {<<Top.f, Top.pc, Operand(k)>> : k \in Leaking})
Spurious(k) ==
  LET seen == TLCGet(k) IN
  IF <<0, 0, <<"", 0>>>> \in seen THEN {}
  ELSE UNION {UNION {{<<k, f, pc, <<q[1], q[2]>>>> : q \in Range(Impl[k][f][pc])} : pc \in DOMAIN Impl[k][f]} : f \in DOMAIN Impl[k]}
       \ {<<k, t[1], t[2], t[3]>> : t \in seen}
Precise ==
  LET bad == UNION {Spurious(k) : k \in DOMAIN Progs} IN
  IF bad = {} THEN TRUE ELSE PrintT(<<"VF", "spurious", bad>>) /\ FALSE
=============================================================================
