------------------------------ MODULE AliasSets ------------------------------
(***************************************************************************)
(* Alias information as an equivalence relation between the pointers of a   *)
(* program.  Introducing an alias unites two classes, merging two objects   *)
(* unites along all classes of the other one, storing and loading changes   *)
(* nothing.  Every answer recorded from the real objects (pairwise queries, *)
(* alias sets, allocation sites) during random histories has to be the one  *)
(* of the relation.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Impl  == JsonDeserialize(IOEnv.VF_RESULTS)

VARIABLES idx, h, k, cur, oth
vars == <<idx, h, k, cur, oth>>

Range(s) == {s[i] : i \in DOMAIN s}
I == Impl[idx]
Keys == DOMAIN I.info
Pool(n) == Range(I.pool[n])
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* a relation: key -> smallest member of its class (0: not a pointer)
RepOf(J, s) == [x \in DOMAIN J.info |-> IF J.pool[s.set[x]] = <<>> THEN 0 ELSE Min(Range(J.pool[s.set[x]]))]
Join(rep, a, b) ==
  IF rep[a] = 0 \/ rep[b] = 0 \/ rep[a] = rep[b] THEN rep
  ELSE LET lo == IF rep[a] < rep[b] THEN rep[a] ELSE rep[b]
           hi == IF rep[a] < rep[b] THEN rep[b] ELSE rep[a]
       IN [x \in DOMAIN rep |-> IF rep[x] = hi THEN lo ELSE rep[x]]
RECURSIVE JoinAll(_, _, _)
JoinAll(rep, other, todo) ==
  IF todo = {} THEN rep
  ELSE LET x == CHOOSE x \in todo : TRUE IN JoinAll(IF other[x] = x THEN rep ELSE Join(rep, x, other[x]), other, todo \ {x})

\* the allocation sites in a class
Inter(C) == {x \in C : I.info[x].kind \in {"alloca", "heap"}}
Intra(v, C) ==
  {x \in C : \/ I.info[x].kind \in {"alloca", "heap"} /\ (I.info[v].glob \/ (I.info[v].fn # 0 /\ I.info[x].fn = I.info[v].fn))
             \/ I.info[x].kind = "arg" /\ I.info[v].fn # 0 /\ I.info[x].fn = I.info[v].fn}
SnapOk(s, rep) ==
  /\ s.ok
  /\ \A v \in Keys :
       \E C \in {IF rep[v] = 0 THEN {} ELSE {x \in Keys : rep[x] = rep[v]}} :
         /\ Pool(s.set[v]) = C
         /\ Pool(s.al[v]) = C
         /\ Pool(s.inter[v]) = Inter(C)
         /\ Pool(s.intra[v]) = Intra(v, C)

Init ==
  /\ idx \in DOMAIN Impl
  /\ h \in 0..Len(Impl[idx].hist)
  /\ k = 0
  /\ cur = RepOf(Impl[idx], Impl[idx].fresh)
  /\ oth = cur

H == I.hist[h]
Op == H[k + 1]
Next ==
  /\ h > 0 /\ k < Len(H)
  /\ k' = k + 1
  /\ cur' = CASE Op.op = "intro" -> Join(cur, Op.a, Op.b)
              [] Op.op = "merge" -> JoinAll(cur, oth, Keys)
              [] OTHER -> cur
  /\ oth' = IF Op.op = "ointro" THEN Join(oth, Op.a, Op.b) ELSE oth
  /\ UNCHANGED <<idx, h>>
Spec == Init /\ [][Next]_vars

\* reflexive and symmetric on the pointers
Wellformed == \A x \in Keys : /\ (cur[x] # 0) = I.info[x].ptr
                              /\ cur[x] # 0 => cur[cur[x]] = cur[x] /\ cur[x] <= x
FreshOk == k = 0 /\ h = 0 => SnapOk(I.fresh, cur) /\ SnapOk(I.viaref, cur)
OpOk ==
  h > 0 /\ k > 0 =>
    LET o == H[k] IN
    CASE o.op = "snap" -> SnapOk(o.snap, cur)
      [] o.op = "osnap" -> SnapOk(o.snap, oth)
      [] o.op = "ask" -> o.res = (cur[o.a] # 0 /\ cur[o.a] = cur[o.b])
      [] o.op = "reload" -> o.same
      [] OTHER -> TRUE
=============================================================================
