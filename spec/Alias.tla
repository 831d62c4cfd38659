-------------------------------- MODULE Alias --------------------------------
(***************************************************************************)
(* Soundness of alias information: whenever two pointers of a function      *)
(* activation (registers that are visible at the current statement,         *)
(* globals, functions) hold the same address in an execution of MiniIR,     *)
(* the analysis reports them as aliases, and the allocation the address     *)
(* comes from is among the reachable allocation sites.                      *)
(***************************************************************************)
EXTENDS MiniIR, Json, IOUtils

Progs == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl  == JsonDeserialize(IOEnv.VF_RESULTS)
MaxLevel == atoi(IOEnv.VF_LEVEL)

VARIABLES idx, st
vars == <<idx, st>>
Init == idx \in DOMAIN Progs /\ st = InitState(Progs[idx])
Next == /\ st' \in Steps(Progs[idx], st)
        /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < MaxLevel

P == Progs[idx]
I == Impl[idx]
Fr == Last(st.stk)
F == P.funs[Fr.f]
Key(r) == I.reg[Fr.f][r]
Aliases(key) == Range(I.pool[I.fresh.al[key]])
SetOf(key) == Range(I.pool[I.fresh.set[key]])
Inter(key) == Range(I.pool[I.fresh.inter[key]])
Intra(key) == Range(I.pool[I.fresh.intra[key]])
\* the registers visible at the current statement, i.e. assigned in this pass through the function
Block(r) == F.code[r - F.np].b
Visible == {r \in 1..(F.np + Fr.pc - 1) : r <= F.np \/ Block(r) = F.code[Fr.pc].b}
           \cup {r \in (F.np + 1)..Len(Fr.r) : Block(r) \in Range(F.dom[F.code[Fr.pc].b]) \ {F.code[Fr.pc].b}}
\* the register assigned last (all parameters at the entry)
Fresh == IF Fr.pc = 1 THEN 1..F.np
         ELSE IF F.code[Fr.pc - 1].b = F.code[Fr.pc].b THEN {F.np + Fr.pc - 1} ELSE {}
Address(v) == v[1] = "p" /\ Deref(st, v)
Same(v, w) == v[1] = w[1] /\ v[2] = w[2] /\ v[3] = w[3]
Both(a, b) == b \in Aliases(a) /\ a \in Aliases(b) /\ b \in SetOf(a) /\ a \in SetOf(b)
Ok(r) ==
  \E v \in {Fr.r[r]} :
  /\ Address(v) =>
       /\ \A q \in Visible : Same(Fr.r[q], v) => Both(Key(r), Key(q))
       /\ v[2] \in Range(F.gs) /\ v[3] = 0 => Both(Key(r), I.glob[v[2]])
       /\ \A q \in Visible :
            (q > F.np /\ (v[3] = 0 \/ F.code[q - F.np].op = "alloca") /\ st.mem[v[2]].s = <<Fr.f, q - F.np>> /\ Same(Fr.r[q], <<"p", v[2], 0>>)) =>
              Key(q) \in Inter(Key(r)) /\ Key(q) \in Intra(Key(r))
  /\ v[1] = "f" => /\ v[2] \in Range(F.fs) => Both(Key(r), I.fun[v[2]])
                   /\ \A q \in Visible : Same(Fr.r[q], v) => Both(Key(r), Key(q))
Sound == ~st.done => \A r \in Fresh : Ok(r)
Shown == [idx |-> idx, st |-> st, bad |-> IF st.done THEN {} ELSE {<<Fr.f, r>> : r \in {r \in Fresh : ~Ok(r)}}]
=============================================================================
