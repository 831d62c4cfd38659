------------------------------- MODULE EdgeFn -------------------------------
(* The algebra of edge functions (C04).  An instance is a DAG: leaves are      *)
(* shipped edge functions, inner nodes are the results the real compose/join   *)
(* returned for two earlier nodes.  Every node carries its table over sample   *)
(* values of its lattice.  The specification walks every DAG node by node and  *)
(* demands that the table of a composition is the composition of the tables,   *)
(* the table of a join an upper bound of the joined tables, etc.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Inst == JsonDeserialize(IOEnv.EF_INST)
Dags == Inst.dags

T == [k |-> "T", v |-> 0]
B == [k |-> "B", v |-> 0]
V(n) == [k |-> "V", v |-> n]

\* bitwise or on 0..127
RECURSIVE Or(_, _)
Or(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a
            ELSE (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + 2 * Or(a \div 2, b \div 2)
RECURSIVE And(_, _)
And(a, b) == IF a = 0 \/ b = 0 THEN 0
             ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * And(a \div 2, b \div 2)

(* the value lattices *)
FlatJoin(x, y) == IF x = T THEN y ELSE IF y = T THEN x ELSE IF x = y THEN x ELSE B
PowJoin(x, y)  == V(Or(x.v, y.v))                        \* top {}, bottom everything
SetJoin(x, y)  == IF x = T \/ y = B THEN y ELSE IF y = T \/ x = B THEN x ELSE V(Or(x.v, y.v))
Join(fam, x, y) == CASE fam \in {"flat", "bin", "lca", "ts"} -> FlatJoin(x, y)
                     [] fam = "pow" -> PowJoin(x, y)
                     [] fam = "iia" -> SetJoin(x, y)
Le(fam, x, y) == Join(fam, x, y) = y
TopOf(fam) == IF fam = "pow" THEN V(0) ELSE T
BotOf(fam) == IF fam = "pow" THEN V(7) ELSE B

(* denotations of the leaves *)
SDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
              IN IF (a < 0) # (b < 0) THEN -q ELSE q
SRem(a, b) == a - b * SDiv(a, b)
Ar(op, a, b) == CASE op = "add" -> V(a + b) [] op = "sub" -> V(a - b) [] op = "mul" -> V(a * b)
                  [] op = "sdiv" -> IF b = 0 THEN B ELSE V(SDiv(a, b))
                  [] op = "srem" -> IF b = 0 THEN B ELSE V(SRem(a, b))
Leaf(fam, l, x) ==
  CASE l.k = "id" -> x
    [] l.k = "top" -> TopOf(fam)
    [] l.k = "bot" -> BotOf(fam)
    [] l.k = "const" -> IF fam = "bin" THEN (IF l.b % 2 = 1 THEN T ELSE B) ELSE V(l.b)
    [] l.k \in {"lin", "linh", "linc"} ->
         IF fam = "flat" THEN (IF x.k = "V" THEN V((x.v * l.a + l.b) % 4) ELSE x)
         ELSE IF fam = "pow" THEN V(Or(And(x.v, l.a), l.b))
         ELSE IF l.a # 0 THEN x ELSE (IF l.b % 2 = 1 THEN T ELSE B)
    [] l.k = "arith" -> IF x.k = "B" THEN B ELSE IF x.k = "T" THEN B
                        ELSE IF l.side = "l" THEN Ar(l.op, x.v, l.c) ELSE Ar(l.op, l.c, x.v)
    [] l.k = "val" -> l.v
    [] l.k = "addset" -> SetJoin(x, V(l.v))
    [] OTHER -> x
HasDen(l) == l.k # "opaque"
Small(x) == x.k # "V" \/ (x.v < 20000 /\ x.v > -20000)

VARIABLES d, n
vars == <<d, n>>
Init == d \in 1..Len(Dags) /\ n = 1
Next == n < Len(Dags[d].nodes) /\ n' = n + 1 /\ d' = d
Spec == Init /\ [][Next]_vars

D == Dags[d]
Nd == D.nodes[n]
F == D.nodes[Nd.f]
G == D.nodes[Nd.g]
S == 1..Len(D.samples)
Idx(x) == CHOOSE i \in S : D.samples[i] = x
Closed == D.fam \in {"flat", "pow", "bin", "iia"}

LeafOK == Nd.op = "leaf" /\ HasDen(Nd.leaf) =>
   \A i \in S : Small(D.samples[i]) => Nd.tab[i] = Leaf(D.fam, Nd.leaf, D.samples[i])

\* h = compose(f, g):  h(x) = g(f(x));  all-top ("no path") is neutral, all-bottom may stay all-bottom
ComposeOK == Nd.op = "compose" =>
   IF F.cls = "top" /\ G.cls # "id" THEN Nd.tab = G.tab
   ELSE IF F.cls = "bot" /\ ~G.cst THEN \A i \in S : Le(D.fam, Nd.gf[i], Nd.tab[i])
   ELSE Nd.tab = Nd.gf
ChildrenOK == Nd.op = "compose" /\ Closed => \A i \in S : Nd.gf[i] = G.tab[Idx(F.tab[i])]

JoinedAt(i) == Join(D.fam, F.tab[i], G.tab[i])
IiaExempt == D.fam = "iia" /\ (F.cls = "id" \/ G.cls = "id")   \* documented: joins with identity under-approximate there
JoinUB == Nd.op = "join" /\ ~IiaExempt => \A i \in S : Le(D.fam, JoinedAt(i), Nd.tab[i])
JoinExact == Nd.op = "join" /\ ((F.cst /\ G.cst) \/ D.eq[Nd.f][Nd.g] \/ F.cls = "top" \/ G.cls = "top") =>
     \A i \in S : Nd.tab[i] = JoinedAt(i)
JoinSym == Nd.op = "join" => Nd.rev = Nd.tab
ConstOK == Nd.cst => \A i \in S : Nd.tab[i] = Nd.tab[1]
EqOK == \A m \in 1..Len(D.nodes) :
          /\ D.eq[n][m] = D.eq[m][n]
          /\ D.eq[n][m] => Nd.tab = D.nodes[m].tab
          /\ m = n => D.eq[n][m]
\* the real value lattice is the specified one, and the specified one is a join semilattice
LatticeOK == n = 1 => \A i, j \in S : D.jm[i][j] = Join(D.fam, D.samples[i], D.samples[j])
LatticeLaws == n = 1 /\ d = 1 => \A fam \in {e.fam : e \in {Dags[k] : k \in 1..Len(Dags)}} :
   LET e == CHOOSE x \in {Dags[k] : k \in 1..Len(Dags)} : x.fam = fam
       X == {e.samples[i] : i \in 1..Len(e.samples)}
   IN /\ \A x \in X : Join(fam, x, x) = x /\ Join(fam, TopOf(fam), x) = x /\ Join(fam, BotOf(fam), x) = BotOf(fam)
      /\ \A x, y \in X : Join(fam, x, y) = Join(fam, y, x)
      /\ \A x, y, z \in X : Join(fam, Join(fam, x, y), z) = Join(fam, x, Join(fam, y, z))
=============================================================================
