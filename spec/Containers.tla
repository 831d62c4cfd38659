----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Sequential models of phasar's utility containers.  Every trace operates  *)
(* on three objects of one kind; the model state `objs` holds their         *)
(* abstract values:                                                         *)
(*   bvs   a set                          (BitVectorSet)                    *)
(*   ecm   a set of [k: set of keys, v]   (EquivalenceClassMap)             *)
(*   table a set of <<row, column, value>>, functional (Table)              *)
(*   sv    a sequence                     (StableVector)                    *)
(*   ctx   a sequence of at most K items  (CallStringCTX)                   *)
(* A recorded step carries the operation, what it returned and what every   *)
(* object reports afterwards; it must be explained by Do(op).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl   == JsonDeserialize(IOEnv.VF_RESULTS)
Has(r, f) == f \in DOMAIN r
Range(s) == {s[k] : k \in DOMAIN s}
Obj == 1..3

VARIABLES tr, l, objs
vars == <<tr, l, objs>>
Kind == Traces[tr].kind
Ops == Traces[tr].ops

(***************************************************************************)
(* What one operation does: the new abstract values and whether the         *)
(* returned value `r` is right.                                             *)
(***************************************************************************)
Set1(i, v) == [objs EXCEPT ![i] = v]
Eff(o, r) == [objs |-> o, ret |-> r]

DoBVS(op, i, j, r) ==
  LET S == objs[i] T == objs[j] IN
  CASE op.o = "insert"      -> Eff(Set1(i, S \cup {op.e}), TRUE)
    [] op.o \in {"insertset", "union", "unionwith"} -> Eff(Set1(i, S \cup T), TRUE)
    [] op.o = "insertrange" -> Eff(Set1(i, S \cup Range(op.es)), TRUE)
    [] op.o = "fromrange"   -> Eff(Set1(i, Range(op.es)), TRUE)
    [] op.o \in {"sized", "clear"} -> Eff(Set1(i, {}), TRUE)
    [] op.o = "reserve"     -> Eff(objs, TRUE)
    [] op.o = "erase"       -> Eff(Set1(i, S \ {op.e}), TRUE)
    [] op.o = "eraseset"    -> Eff(Set1(i, S \ T), TRUE)
    [] op.o \in {"inter", "interwith", "intersectWith"} -> Eff(Set1(i, S \cap T), TRUE)
    [] op.o = "copy"        -> Eff(Set1(i, T), TRUE)
    [] op.o = "move"        -> Eff([[objs EXCEPT ![j] = {}] EXCEPT ![i] = T], TRUE)
    [] op.o = "count"       -> Eff(objs, r = (op.e \in S))
    [] op.o = "includes"    -> Eff(objs, r = (T \subseteq S))
    [] op.o = "iterins"     -> Eff(Set1(j, T \cup {op.e + k : k \in 0..(Cardinality(S) - 1)}),
                                   Len(r) = Cardinality(S) /\ Range(r) = S)
    [] op.o = "arith"       -> Eff(objs, /\ r[1] = Cardinality(S)
                                         /\ Len(r[2]) = Cardinality(S) /\ Range(r[2]) = S
                                         /\ r[3] = r[2])

\* the value classes of an equivalence-class map; a key may be in several
Put(M, k, v) == IF \E c \in M : c.v = v
                THEN {IF c.v = v THEN [k |-> c.k \cup {k}, v |-> v] ELSE c : c \in M}
                ELSE M \cup {[k |-> {k}, v |-> v]}
RECURSIVE PutAll(_, _)
PutAll(M, s) == IF s = <<>> THEN M ELSE PutAll(Put(M, s[1][1], s[1][2]), Tail(s))
DoECM(op, i, j, r) ==
  LET M == objs[i] IN
  CASE op.o = "insert" -> Eff(Set1(i, Put(M, op.k, op.v)),
                              r = <<op.k, ~\E c \in M : c.v = op.v /\ op.k \in c.k>>)
    [] op.o = "insertrange" -> Eff(Set1(i, PutAll(M, op.kvs)), TRUE)
    [] op.o = "fromrange"   -> Eff(Set1(i, PutAll({}, op.kvs)), TRUE)
    [] op.o = "clear" -> Eff(Set1(i, {}), TRUE)
    [] op.o = "copy"  -> Eff(Set1(i, objs[j]), TRUE)
    [] op.o = "count" -> Eff(objs, r = (IF \E c \in M : op.k \in c.k THEN 1 ELSE 0))
    [] op.o = "find"  -> Eff(objs, IF \E c \in M : op.k \in c.k
                                   THEN Len(r) = 2 /\ r[1] = r[2] /\ \E c \in M : op.k \in c.k /\ c.v = r[1]
                                   ELSE r = <<>>)

Val(T, a, c) == IF \E x \in T : x[1] = a /\ x[2] = c
                THEN (CHOOSE x \in T : x[1] = a /\ x[2] = c)[3] ELSE 0
Store(T, a, c, v) == {x \in T : ~(x[1] = a /\ x[2] = c)} \cup {<<a, c, v>>}
NoDup(s) == Cardinality(Range(s)) = Len(s)
DoTable(op, i, j, r) ==
  LET T == objs[i]
      RowOf(a) == {<<x[2], x[3]>> : x \in {x \in T : x[1] = a}}
      ColOf(c) == {<<x[1], x[3]>> : x \in {x \in T : x[2] = c}} IN
  CASE op.o = "insert"  -> Eff(Set1(i, Store(T, op.r, op.c, op.v)), TRUE)
    [] op.o = "getmut"  -> Eff(Set1(i, Store(T, op.r, op.c, op.v)), r = Val(T, op.r, op.c))
    [] op.o = "get"     -> Eff(objs, r = Val(T, op.r, op.c))
    [] op.o = "remove2" -> Eff(Set1(i, {x \in T : ~(x[1] = op.r /\ x[2] = op.c)}), r = Val(T, op.r, op.c))
    [] op.o = "remove1" -> Eff(Set1(i, {x \in T : x[1] # op.r}), TRUE)
    [] op.o = "rowmut"  -> Eff(Set1(i, Store(T, op.r, op.c, op.v)), Range(r) = RowOf(op.r) /\ NoDup(r))
    [] op.o = "row"     -> Eff(objs, Range(r) = RowOf(op.r) /\ NoDup(r))
    [] op.o = "column"  -> Eff(objs, Range(r) = ColOf(op.c) /\ NoDup(r))
    [] op.o = "contains" -> Eff(objs, r = <<\E x \in T : x[1] = op.r /\ x[2] = op.c,
                                           \E x \in T : x[1] = op.r, \E x \in T : x[2] = op.c>>)
    [] op.o = "clear"   -> Eff(Set1(i, {}), TRUE)
    [] op.o = "copy"    -> Eff(Set1(i, objs[j]), TRUE)
    [] op.o = "move"    -> Eff([[objs EXCEPT ![j] = {}] EXCEPT ![i] = objs[j]], TRUE)

Min(a, b) == IF a < b THEN a ELSE b
DoSV(op, i, j, r) ==
  LET S == objs[i] IN
  CASE op.o = "push"   -> Eff(Set1(i, S \o [k \in 1..op.n |-> op.v + k - 1]), TRUE)
    [] op.o = "pushself" -> Eff(Set1(i, IF S = <<>> THEN S ELSE Append(S, S[1])), TRUE)
    [] op.o \in {"pop", "popn"} -> Eff(Set1(i, SubSeq(S, 1, Len(S) - Min(op.n, Len(S)))), TRUE)
    [] op.o = "popval" -> Eff(Set1(i, IF S = <<>> THEN S ELSE SubSeq(S, 1, Len(S) - 1)),
                              r = IF S = <<>> THEN -1 ELSE S[Len(S)])
    [] op.o = "clear"  -> Eff(Set1(i, <<>>), TRUE)
    [] op.o = "shrink" -> Eff(objs, TRUE)
    [] op.o = "clone"  -> Eff(Set1(i, objs[j]), TRUE)
    [] op.o = "move"   -> Eff(IF i = j THEN objs ELSE [[objs EXCEPT ![j] = <<>>] EXCEPT ![i] = objs[j]], TRUE)
    [] op.o = "swap"   -> Eff([[objs EXCEPT ![j] = S] EXCEPT ![i] = objs[j]], TRUE)
    [] op.o = "set"    -> Eff(IF op.n < Len(S) THEN Set1(i, [S EXCEPT ![op.n + 1] = op.v]) ELSE objs, TRUE)
    [] op.o = "frontback" -> Eff(objs, r = IF S = <<>> THEN <<>> ELSE <<S[1], S[Len(S)], S[1], S[Len(S)]>>)

Bounded(S, k) == SubSeq(S, 1 + (IF Len(S) > k THEN Len(S) - k ELSE 0), Len(S))
DoCTX(op, i, j, r) ==
  LET S == objs[i]  K == Traces[tr].K IN
  CASE op.o = "push" -> Eff(Set1(i, Bounded(Append(S, op.e), K)), TRUE)
    [] op.o = "pop"  -> Eff(Set1(i, IF S = <<>> THEN S ELSE SubSeq(S, 1, Len(S) - 1)),
                            r = IF S = <<>> THEN 0 ELSE S[Len(S)])
    [] op.o = "copy" -> Eff(Set1(i, objs[j]), TRUE)
    [] op.o = "init" -> Eff(IF op.n > K THEN objs ELSE Set1(i, [k \in 1..op.n |-> op.e + k - 1]),
                            r = IF op.n > K THEN 1 ELSE 0)

Do(op, i, j, r) == CASE Kind = "bvs" -> DoBVS(op, i, j, r) [] Kind = "ecm" -> DoECM(op, i, j, r)
                     [] Kind = "table" -> DoTable(op, i, j, r) [] Kind = "sv" -> DoSV(op, i, j, r)
                     [] Kind = "ctx" -> DoCTX(op, i, j, r)

Empty == CASE Kind \in {"bvs", "ecm", "table"} -> {} [] OTHER -> <<>>
Size(v) == CASE Kind \in {"bvs", "ecm"} -> Cardinality(v)
             [] Kind = "table" -> Cardinality({x[1] : x \in v})      \* the number of rows
             [] OTHER -> Len(v)
(***************************************************************************)
(* The observation of the objects agrees with their abstract values v:      *)
(* content by iteration, sizes, ==, !=, hash (equal objects hash equally),  *)
(* < (a strict total order on abstract values), stability of references.    *)
(***************************************************************************)
ObsContent(o, v) ==
  CASE Kind \in {"bvs", "table"} -> \A i \in Obj : Range(o.objs[i]) = v[i] /\ NoDup(o.objs[i])
    [] Kind = "ecm" -> \A i \in Obj : /\ {[k |-> Range(c.k), v |-> c.v] : c \in Range(o.objs[i])} = v[i]
                                      /\ Len(o.objs[i]) = Cardinality(v[i])
    [] Kind = "ctx" -> \A i \in Obj : o.objs[i] = v[i]
    [] Kind = "sv"  -> \A i \in Obj : o.seen[i] => o.objs[i] = v[i]
ObsSizes(o, v) == \A i \in Obj : CASE Kind = "ecm" -> o.sizes[i] = <<Size(v[i]), Size(v[i])>>
                                   [] OTHER -> o.sizes[i] = <<Size(v[i]), v[i] = Empty>>
ObsRel(o, v) ==
  /\ Has(o, "eq") => \A i, j \in Obj : o.eq[i][j] = (v[i] = v[j])
  /\ Has(o, "ne") => \A i, j \in Obj : o.ne[i][j] = (v[i] # v[j])
  /\ Has(o, "h")  => \A i, j \in Obj : v[i] = v[j] => o.h[i] = o.h[j]
  /\ Has(o, "lt") => /\ \A i, j \in Obj : (o.lt[i][j] \/ o.lt[j][i]) = (v[i] # v[j])
                     /\ \A i, j \in Obj : ~(o.lt[i][j] /\ o.lt[j][i])
                     /\ \A i, j, k \in Obj : o.lt[i][j] /\ o.lt[j][k] => o.lt[i][k]
ObsRefs(o) == Kind = "sv" => o.refs /\ o.live = 0
Explained(o, e) == e.ret /\ ObsContent(o, e.objs) /\ ObsSizes(o, e.objs) /\ ObsRel(o, e.objs) /\ ObsRefs(o)

Init == /\ tr \in DOMAIN Traces
        /\ l = 1
        /\ objs = [i \in Obj |-> Empty]
Step == /\ l <= Len(Ops)
        /\ \E op \in {Ops[l]} : \E o \in {Impl[tr][l]} :
             \E e \in {Do(op, op.i + 1, IF Has(op, "j") THEN op.j + 1 ELSE op.i + 1, o.r)} :
                Explained(o, e) /\ objs' = e.objs
        /\ l' = l + 1
        /\ UNCHANGED tr
Done == l > Len(Ops) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
\* all elements are destroyed in the end
NoLeak == (Kind = "sv" /\ l > Len(Ops)) => Impl[tr][l].left = 0
\* structural invariants of the abstract values themselves
Functional == Kind = "table" => \A i \in Obj : \A x, y \in objs[i] : x[1] = y[1] /\ x[2] = y[2] => x = y
Merged == Kind = "ecm" => \A i \in Obj : \A x, y \in objs[i] : x.v = y.v => x = y
CtxBound == Kind = "ctx" => \A i \in Obj : Len(objs[i]) <= Traces[tr].K
=============================================================================
