------------------------------- MODULE Classes -------------------------------
(***************************************************************************)
(* Class declarations, processed one after the other: each declaration      *)
(* extends the subtype relation and lays out the (primary) virtual table of *)
(* the new class.  When all classes are declared, every recorded answer of  *)
(* the real type hierarchies and virtual-table providers (fresh, and after  *)
(* storing and loading them once and twice) has to agree with the state.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Progs == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl  == JsonDeserialize(IOEnv.VF_RESULTS)

VARIABLES idx,   \* program
          k,     \* number of classes declared
          sub,   \* set of <<base, derived>>, reflexive and transitive
          vm,    \* class -> set of methods that are virtual in it
          tab    \* class -> virtual table: sequence of <<class, method, pure?>>
vars == <<idx, k, sub, vm, tab>>

Cls == Progs[idx].classes
N == Len(Cls)
Dtor == 8      \* complete destructor; 9: deleting destructor

Init == idx \in DOMAIN Progs /\ k = 0 /\ sub = {} /\ vm = <<>> /\ tab = <<>>

Bases(c) == {Cls[c].bases[i].c : i \in DOMAIN Cls[c].bases}
\* whether the class has a virtual table pointer: virtual functions or virtual bases
RECURSIVE Dynamic(_)
Dynamic(c) == vm[c] # {} \/ \E i \in DOMAIN Cls[c].bases : Cls[c].bases[i].virt \/ Dynamic(Cls[c].bases[i].c)
\* the base class whose virtual table the class extends: the first non-virtual one that has one
Primary(c) ==
  LET bs == Cls[c].bases
      is == {i \in DOMAIN bs : ~bs[i].virt /\ Dynamic(bs[i].c)}
  IN IF is = {} THEN 0 ELSE bs[CHOOSE i \in is : \A j \in is : i <= j].c

Inherited(c) == UNION {vm[b] : b \in Bases(c)}
Declared(c) == {Cls[c].decl[i].m : i \in DOMAIN Cls[c].decl}
VirtualIn(c) == Inherited(c) \cup {Cls[c].decl[i].m : i \in {i \in DOMAIN Cls[c].decl : Cls[c].decl[i].k # "plain"}}

Slots(t) == {t[i][2] : i \in DOMAIN t}
Replace(t, m, e) == [i \in DOMAIN t |-> IF t[i][2] = m THEN e ELSE t[i]]
RECURSIVE Lay(_, _, _, _)
Lay(t, c, ds, V) ==
  IF ds = <<>> THEN t
  ELSE LET d == Head(ds)
           e == <<c, d.m, d.k = "pure">>
           t2 == IF d.m \notin V THEN t
                 ELSE IF d.m = Dtor THEN
                        IF Dtor \in Slots(t) THEN Replace(Replace(t, Dtor, e), Dtor + 1, <<c, Dtor + 1, FALSE>>)
                        ELSE t \o <<e, <<c, Dtor + 1, FALSE>>>>
                 ELSE IF d.m \in Slots(t) THEN Replace(t, d.m, e) ELSE Append(t, e)
       IN Lay(t2, c, Tail(ds), V)
\* an implicit destructor overrides as well
Implicit(c, t) == IF Dtor \in Slots(t) /\ Dtor \notin Declared(c)
                  THEN Replace(Replace(t, Dtor, <<c, Dtor, FALSE>>), Dtor + 1, <<c, Dtor + 1, FALSE>>) ELSE t
Layout(c) ==
  LET p == Primary(c)
      t0 == IF p = 0 THEN <<>> ELSE tab[p]
  IN Implicit(c, Lay(t0, c, Cls[c].decl, VirtualIn(c)))

Declare ==
  /\ k < N
  /\ k' = k + 1
  /\ sub' = sub \cup {<<k + 1, k + 1>>} \cup {<<e[1], k + 1>> : e \in {e \in sub : e[2] \in Bases(k + 1)}}
  /\ vm' = Append(vm, VirtualIn(k + 1))
  /\ tab' = Append(tab, Layout(k + 1))
  /\ UNCHANGED idx
Next == Declare
Spec == Init /\ [][Next]_vars

Done == k = N
Poly(c) == vm[c] # {}
\* run-time type information exists for the bases of dynamic classes
HasTI(c) == \E d \in 1..N : Dynamic(d) /\ <<c, d>> \in sub
\* the subtype relation LLVM's types and type information reveal: between named, non-template, non-local classes
RECURSIVE LLReach(_, _, _)
LLReach(todo, seen, i) ==
  IF todo = {} THEN seen
  ELSE LET nx == {d \in 1..N : Cls[d].plain /\ HasTI(d) /\ Bases(d) \cap todo # {}} \ seen IN LLReach(nx, seen \cup nx, i + 1)
LLSub(c) == IF c > N \/ ~Cls[c].plain THEN {c} ELSE LLReach({c}, {c}, 0)
DISub(c) == {e[2] : e \in {e \in sub : e[1] = c}}

\* function numbers: class * 16 + method; 1: pure virtual function; 0: none
Fn(e) == IF e[3] THEN 1 ELSE e[1] * 16 + e[2]
\* the debug information tells the functions a class declares itself, except for destructors
DIFn(c, e) == IF e[3] \/ e[1] # c \/ e[2] >= Dtor THEN 0 ELSE Fn(e)
Get(t, i) == IF i \in DOMAIN t THEN t[i] ELSE 0

ViewOk(v) ==
  /\ v.ok
  /\ v.kind = "DI" => /\ Range(v.types) = 1..N
                      /\ Len(v.types) = N
  /\ v.kind = "LL" => /\ \A c \in 1..N : Cls[c].plain => c \in Range(v.types)
                      /\ Cardinality(Range(v.types)) = Len(v.types)
  /\ \A i \in DOMAIN v.types :
       LET c == v.types[i] IN
       /\ Range(v.sub[i]) = (IF v.kind = "DI" THEN DISub(c) ELSE LLSub(c))
       /\ IF v.names[i] = "" THEN v.byname[i] = 0
          ELSE \E j \in DOMAIN v.types : v.names[j] = v.names[i] /\ v.types[j] = v.byname[i]
       /\ v.hasvt =>
            IF v.kind = "DI"
            THEN Cls[c].local \/ \A s \in 1..20 : Get(v.vt[i], s) = (IF s \in DOMAIN tab[c] THEN DIFn(c, tab[c][s]) ELSE 0)
            ELSE IF c <= N /\ Cls[c].plain
                 THEN /\ tab[c] = <<>> /\ ~Poly(c) => v.vt[i] = <<>>
                      /\ \A s \in DOMAIN tab[c] : Get(v.vt[i], s) = Fn(tab[c][s])
                 ELSE TRUE

Answers == Done => \A n \in DOMAIN Impl[idx] : ViewOk(Impl[idx][n])
Shown == [idx |-> idx, k |-> k, tab |-> tab, sub |-> sub,
          bad |-> IF Done THEN {n \in DOMAIN Impl[idx] : ~ViewOk(Impl[idx][n])} ELSE {}]
=============================================================================
