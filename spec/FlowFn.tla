------------------------------- MODULE FlowFn -------------------------------
(* Flow-function building blocks (C05): the denotation of every combinator and *)
(* of the LLVM fact mappers as a relation over facts; the flow/edge function   *)
(* cache as a state machine over lookup histories that must be transparent;    *)
(* initial seeds as a finite map.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Inst == JsonDeserialize(IOEnv.FF_INST)
Dags == Inst.dags
Caches == Inst.cache
Maps == Inst.maps
Seeds == Inst.seeds
K == 5
Facts == 0..(K - 1)
Rng(s) == {s[i] : i \in 1..Len(s)}

VARIABLES part, i, j
vars == <<part, i, j>>
Len2(p, x) == CASE p = "dag" -> Len(Dags[x]) [] p = "cache" -> Len(Caches[x].ops)
                [] p = "map" -> Len(Maps[x].queries) [] p = "seed" -> Len(Seeds[x])
Init == /\ part \in {"dag", "cache", "map", "seed"}
        /\ i \in 1..(CASE part = "dag" -> Len(Dags) [] part = "cache" -> Len(Caches) [] part = "map" -> Len(Maps) [] part = "seed" -> Len(Seeds))
        /\ j = 1 /\ Len2(part, i) > 0
Next == j < Len2(part, i) /\ j' = j + 1 /\ UNCHANGED <<part, i>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* combinators: relation of a node, as a function Facts -> SUBSET Facts *)
Tab(n, x) == Rng(n.tab[x + 1])
Img(n, X) == UNION {Tab(n, x) : x \in X}
RECURSIVE Comp(_, _, _)
Comp(d, fs, X) == IF fs = <<>> THEN X ELSE Comp(d, Tail(fs), Img(d[Head(fs)], X))
Den(d, n, x) ==
  CASE n.k \in {"id", "Id"} -> {x}
    [] n.k = "lambda" -> Rng(n.rel[x + 1])
    [] n.k \in {"gen", "Gen"} -> IF x = n.b THEN {x, n.a} ELSE {x}
    [] n.k \in {"genif", "GenIf"} -> IF x \in Rng(n.s) THEN {x, n.a} ELSE {x}
    [] n.k \in {"genmany", "GenAll"} -> IF x = n.b THEN {x} \cup Rng(n.s) ELSE {x}
    [] n.k \in {"kill", "Kill"} -> {x} \ {n.a}
    [] n.k \in {"killif", "killmany", "KillIf", "KillMultiple"} -> {x} \ Rng(n.s)
    [] n.k \in {"killall", "KillAll"} -> {}
    [] n.k \in {"genkill", "GenKill"} -> IF x = n.b THEN {x, n.a} ELSE {}
    [] n.k \in {"genmanykill", "GenAllKill"} -> IF x = n.b THEN {x} \cup Rng(n.s) ELSE {}
    [] n.k \in {"transfer", "Transfer"} -> IF x = n.b THEN {x, n.a} ELSE {x} \ {n.a}
    [] n.k = "union" -> Tab(d[n.f], x) \cup Tab(d[n.g], x)
    [] n.k = "unionc" -> (IF x = n.b THEN {x, n.a} ELSE {x}) \cup ({x} \ {n.b})
    [] n.k = "zeroed" -> Tab(d[n.f], x) \cup (IF x = n.a THEN {x} ELSE {})
    [] n.k \in {"Compose", "compose"} -> Comp(d, n.fs, {x})
    [] n.k = "Union" -> IF n.fs = <<>> THEN {x} ELSE UNION {Tab(d[f], x) : f \in Rng(n.fs)}
DagOK == part = "dag" =>
   LET d == Dags[i] n == d[j]
   IN \A x \in Facts : /\ Tab(n, x) = Den(d, n, x)
                       /\ Rng(n.tab2[x + 1]) = Tab(n, x)      \* flow functions are stateless

----------------------------------------------------------------------------
(* the cache: answers are those of the problem, whatever was looked up before *)
RECURSIVE LinS(_, _, _)
LinS(a, c, r) == IF a = <<>> THEN r ELSE LinS(Tail(a), c + 1, r + c * Head(a))
Args(o) == CASE o.k = 1 -> <<o.a, o.c>> [] o.k = 2 -> <<o.a, o.f>>
             [] o.k = 3 -> <<o.a, o.f, o.e, o.c>> [] o.k = 4 -> <<o.a, o.c>>
             [] o.k = 5 -> IF o.flow THEN <<o.a, o.f>> ELSE <<o.a, o.c>>
H(o) == LinS(Args(o), 1, o.k)
FlowRel(c, h, d) == {t \in 1..c.nd : (h + 3 * d + 5 * t) % 3 = 0 \/ (h + d + t) % 4 = 0}
Bit(m, b) == (m \div b) % 2 = 1
RECURSIVE Or(_, _)
Or(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
            ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * Or(a \div 2, b \div 2)
EFApply(e, m) == LET g(b, k) == IF Bit(m, b) THEN e[k] ELSE 0 IN Or(e[1], Or(g(1, 2), Or(g(2, 3), g(4, 4))))
CacheOK == part = "cache" =>
   LET c == Caches[i] o == c.ops[j]
   IN IF o.flow
      THEN /\ o.null = (o.k = 5 /\ H(o) % 2 = 0)
           /\ ~o.null => \A d \in 1..c.nd : Rng(o.res[d]) = FlowRel(c, H(o), d)
                             \cup (IF c.autozero /\ o.k # 5 /\ d = 1 THEN {1} ELSE {})
      ELSE \A m \in 0..7 : o.res[m + 1] = EFApply(c.efs[((H(o) + 3 * o.s + 5 * o.t) % Len(c.efs)) + 1], m)
\* every distinct edge function lookup is cached under its own key at most once
CachedOK == part = "cache" => Caches[i].cached <= Cardinality({<<H(o), o.k, o.a, o.c, o.e, o.f, o.s, o.t>> : o \in {x \in Rng(Caches[i].ops) : ~x.flow}})

----------------------------------------------------------------------------
(* LLVM mappers; values are 1..nv, 1 is the zero value *)
MapDen(m, q, x) ==
  LET const == x \in Rng(m.consts)
      un(v) == (v + q.salt) % 2 = 0
      rel(v, s) == IF q.def THEN v = s ELSE v = s \/ (v * 3 + s * 5 + q.salt) % 4 = 0
      rel2(v, s) == IF q.def THEN v = s ELSE (v * 2 + s * 7 + q.salt) % 3 = 0
      np == Len(m.params)
      na == Len(m.args)
  IN CASE q.k = "along" ->
          IF x = 1 THEN {1} ELSE IF const THEN (IF q.pg THEN {x} ELSE {})
          ELSE IF x \in Rng(m.args) THEN (IF q.def \/ un(x) THEN {x} ELSE {}) ELSE {x}
       [] q.k = "callee" ->
          IF m.decl THEN {}
          ELSE (IF x = 1 /\ q.pz THEN {1} ELSE {}) \cup (IF const /\ q.pg THEN {x} ELSE {})
               \cup {m.params[p] : p \in {p \in (IF m.sret THEN 2 ELSE 1)..np : rel(m.args[p], x)}}
               \cup (IF \E a \in (np + 1)..na : rel(m.args[a], x) THEN Rng(m.va) ELSE {})
       [] q.k = "caller" ->
          ((IF x = 1 /\ q.pz THEN {1} ELSE {}) \cup (IF const /\ q.pg THEN {x} ELSE {})
               \cup {m.args[p] : p \in {p \in 1..np : rel(m.params[p], x)}}
               \cup (IF \E v \in Rng(m.va) : rel(v, x) THEN {m.args[a] : a \in (np + 1)..na} ELSE {})
               \cup (IF m.rv # 0 /\ rel2(m.rv, x) THEN {m.cs} ELSE {})) \ {q.drop}
       [] q.k = "store" ->
          IF x \in {m.sptr, m.sbase} THEN {}
          ELSE IF (q.def /\ x = m.sval) \/ (~q.def /\ un(x)) THEN {x, m.sptr, m.sbase} ELSE {x}
MapOK == part = "map" => LET m == Maps[i] q == m.queries[j] IN \A x \in 1..m.nv : Rng(q.tab[x]) = MapDen(m, q, x)

----------------------------------------------------------------------------
(* initial seeds: the last value added for a (statement, fact) pair *)
Last(s, n, d) == LET X == {k \in 1..j : s[k].op[1] = n /\ s[k].op[2] = d} IN s[CHOOSE k \in X : \A l \in X : l <= k].op[3]
SeedOK == part = "seed" =>
   LET s == Seeds[i] o == s[j]
       dom == {<<s[k].op[1], s[k].op[2]>> : k \in 1..j}
   IN /\ Rng(o.all) = {<<p[1], p[2], Last(s, p[1], p[2])>> : p \in dom}
      /\ Len(o.all) = Cardinality(dom) /\ o.n = Cardinality(dom) /\ ~o.empty
      /\ \A n \in 0..3 : o.per[n + 1] = <<Cardinality({p \in dom : p[1] = n}), IF \E p \in dom : p[1] = n THEN 1 ELSE 0>>
=============================================================================
