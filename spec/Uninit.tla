------------------------------- MODULE Uninit -------------------------------
(***************************************************************************)
(* Uses of uninitialized variables: whenever an execution of MiniIR is      *)
(* about to read an undefined cell, or to compute or branch with an         *)
(* undefined value, the analysis has reported this operand of this          *)
(* statement.  Precise: on simple programs it reports nothing else.         *)
(***************************************************************************)
EXTENDS MiniIR, Json, IOUtils

Progs == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl  == JsonDeserialize(IOEnv.VF_RESULTS)
MaxLevel == atoi(IOEnv.VF_LEVEL)
Collect == IOEnv.VF_COLLECT = "1"

VARIABLES idx, st
vars == <<idx, st>>
Init == idx \in DOMAIN Progs /\ st = InitState(Progs[idx])
Next == /\ st' \in Steps(Progs[idx], st)
        /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < MaxLevel

P == Progs[idx]
Top == Last(st.stk)
S == Stmt(P, st)
V(k) == Val(P, Top, S.a[k])
UndefOperands ==
  CASE S.op = "load" -> {k \in {1} : Deref(st, V(1)) /\ Cell(st, V(1))[1] = "u"}
    [] S.op \in {"bin", "icmp"} -> {k \in {1, 2} : V(k)[1] = "u"}
    [] S.op \in {"cbr", "switch", "select"} -> {k \in {1} : V(k)[1] = "u"}
    [] OTHER -> {}
Operand(k) == LET o == S.a[k] IN IF o[1] = "u" THEN <<"u", 0>> ELSE <<o[1], o[2]>>
Reported(f, pc) == {<<q[1], q[2]>> : q \in Range(Impl[idx][f][pc])}
\* (with the literal undef among the operands, reporting this one is enough)
Sound == ~st.done =>
  \A k \in UndefOperands :
    LET R == Reported(Top.f, Top.pc) IN
    Operand(k) \in R \/ <<"u", 0>> \in R

\* one register of the model checker per program (1 worker)
ASSUME Collect => \A k \in DOMAIN Progs : TLCSet(k, {})
Note(N) == LET old == TLCGet(idx) IN IF N \subseteq old THEN TRUE ELSE TLCSet(idx, old \cup N)
Collected ==
  IF st.done THEN TRUE
  ELSE Note(IF Steps(P, st) = {} THEN {<<0, 0, <<"", 0>>>>} ELSE {<<Top.f, Top.pc, Operand(k)>> : k \in UndefOperands})
Spurious(k) ==
  LET seen == TLCGet(k) IN
  IF <<0, 0, <<"", 0>>>> \in seen THEN {}
  ELSE UNION {UNION {{<<k, f, pc, <<q[1], q[2]>>>> : q \in Range(Impl[k][f][pc])} : pc \in DOMAIN Impl[k][f]} : f \in DOMAIN Impl[k]}
       \ {<<k, t[1], t[2], t[3]>> : t \in seen}
Precise ==
  LET bad == UNION {Spurious(k) : k \in DOMAIN Progs} IN
  IF bad = {} THEN TRUE ELSE PrintT(<<"VF", "spurious", bad>>) /\ FALSE
=============================================================================
