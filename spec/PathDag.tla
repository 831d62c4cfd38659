------------------------------ MODULE PathDag ------------------------------
(***************************************************************************)
(* Path reconstruction on exploded supergraphs.                            *)
(*                                                                         *)
(* A case holds a recorded exploded supergraph (nodes with statement,       *)
(* basic block and fact; edges; seeds) and, for every query, the path DAGs  *)
(* that the implementation returned for several configurations.  A path DAG *)
(* is read as an automaton over statements, backwards: from a leaf (a       *)
(* query) through the labels of its nodes, to a root.  The word it accepts  *)
(* is a witness path, from the query back to where it starts.               *)
(*                                                                         *)
(* Four games are played, each by walking in one graph and keeping the set  *)
(* `S` of matching positions in the other:                                  *)
(*   sound  walk in the DAG, match paths of the exploded supergraph         *)
(*   compl  walk in the (acyclic) supergraph, match words of the DAG        *)
(*   same   walk in one DAG, match words of another that must be equal      *)
(*   suffix walk in a depth-limited DAG, match suffixes in the full one     *)
(*   short  walk in the full DAG up to the limit, match in the limited one  *)
(*                                                                         *)
(* Edges that keep a fact (not the zero fact) inside one basic block may be *)
(* contracted: their statement need not occur in the word, and the facts    *)
(* before and after are then indistinguishable.  In `exact` cases they may   *)
(* only be skipped in the direction of the edges.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.PD_CASES)
Impl  == JsonDeserialize(IOEnv.PD_OBS)
Range(s) == {s[k] : k \in DOMAIN s}

VARIABLES c, q, m, x, y, a, S, e
vars == <<c, q, m, x, y, a, S, e>>

Case == Cases[c]
Nodes == Case.nodes                     \* <<statement, block, fact>>
Stmt(n) == Nodes[n][1]
Block(n) == Nodes[n][2]
Fact(n) == Nodes[n][3]
Edges == Range(Case.edges)              \* <<source node, target node>>
Seeds == Range(Case.seeds)
IsIdent(ed) == /\ Fact(ed[1]) = Fact(ed[2]) /\ Fact(ed[1]) # 0
               /\ Block(ed[1]) = Block(ed[2])
Idents == {ed \in Edges : IsIdent(ed)}
RECURSIVE Close(_)
Close(T) == LET U == T \cup {ed[1] : ed \in {f \in Idents : f[2] \in T}} \cup {ed[2] : ed \in {f \in Idents : f[1] \in T}}
            IN IF U = T THEN T ELSE Close(U)
\* without calls, a merged fact still knows the order of its statements
RECURSIVE Back(_)
Back(T) == LET U == T \cup {ed[1] : ed \in {f \in Idents : f[2] \in T}}
           IN IF U = T THEN T ELSE Back(U)
Merged(T) == IF Case.exact THEN Back(T) ELSE Close(T)
\* seeds nothing flows into: every path has to start at one of them
TrueSeeds == {s \in Seeds : \A ed \in Edges : ed[2] # s}

(***************************************************************************)
(* Path DAGs as automata.  A position <<v, i>> has just read label i of v.  *)
(***************************************************************************)
Dag(k) == Impl[c][q][k]
Starts(D) == {<<v, 1>> : v \in {w \in DOMAIN D.labels : \A ed \in Range(D.edges) : ed[1] # w}}
Letter(D, p) == D.labels[p[1]][p[2]]
Next1(D, p) == IF p[2] < Len(D.labels[p[1]]) THEN {<<p[1], p[2] + 1>>}
               ELSE {<<ed[1], 1>> : ed \in {f \in Range(D.edges) : f[2] = p[1]}}
IsEnd(D, p) == p[2] = Len(D.labels[p[1]]) /\ p[1] \in Range(D.roots)
Read(D, P, l) == {p \in UNION {Next1(D, r) : r \in P} : Letter(D, p) = l}
\* all positions reachable without leaving block b
RECURSIVE InBlock(_, _, _)
BlockOf(l) == Case.blocks[l]
InBlock(D, P, b) == LET U == P \cup {p \in UNION {Next1(D, r) : r \in P} : BlockOf(Letter(D, p)) = b}
                    IN IF U = P THEN P ELSE InBlock(D, U, b)

QNodes == {n \in DOMAIN Nodes : Stmt(n) = Case.queries[q].n /\ Fact(n) \in Range(Case.queries[q].ds)}
Full == Dag(1)
IsEsg == Case.kind = "esg"

Init ==
  /\ c \in DOMAIN Cases
  /\ q \in DOMAIN Impl[c]
  /\ e = 0
  /\ LET N == DOMAIN Impl[c][q] IN
     \/ /\ m = "sound" /\ IsEsg /\ x = 1 /\ y = 1
        /\ a \in Starts(Full)
        /\ S = IF Letter(Full, a) = Case.queries[q].n THEN Merged(QNodes) ELSE {}
     \/ /\ m = "compl" /\ IsEsg /\ Case.acyclic /\ x = 1 /\ y = 1
        /\ a \in QNodes
        /\ S = InBlock(Full, {p \in Starts(Full) : Letter(Full, p) = Stmt(a)}, Block(a))
     \/ /\ m = "same"
        /\ x \in N /\ y \in N /\ x # y /\ Dag(x).depth = Dag(y).depth
        /\ a \in Starts(Dag(x))
        /\ S = {p \in Starts(Dag(y)) : Letter(Dag(y), p) = Letter(Dag(x), a)}
     \/ /\ m = "suffix"
        /\ x \in N /\ y = 1 /\ Dag(x).depth >= 0 /\ ~Dag(x).min
        /\ a \in Starts(Dag(x))
        /\ S = {p \in Starts(Full) : Letter(Full, p) = Letter(Dag(x), a)}
     \/ /\ m = "short"
        /\ x = 1 /\ y \in N /\ Dag(y).depth >= 0 /\ ~Dag(y).min
        /\ a \in Starts(Full)
        /\ S = {p \in Starts(Dag(y)) : Letter(Dag(y), p) = Letter(Full, a)}


Keep == UNCHANGED <<c, q, m, x, y>>

WalkDag ==
  /\ m # "compl" /\ S # {}
  /\ \E p \in Next1(Dag(x), a) :
       /\ a' = p
       /\ e' = IF m = "short" /\ p[1] # a[1] THEN e + 1 ELSE e
       /\ m = "short" => e' <= Dag(y).depth
       /\ \E l \in {Letter(Dag(x), p)} :
            S' = IF m = "sound"
                 THEN Merged({ed[1] : ed \in {f \in Edges : f[2] \in S /\ Stmt(f[1]) = l}}
                            \cup {n \in S : n \in Seeds /\ Stmt(n) = l})
                 ELSE Read(Dag(y), S, l)
  /\ Keep

WalkEsg ==
  /\ m = "compl" /\ S # {}
  /\ \E ed \in {f \in Edges : f[2] = a} :
       /\ a' = ed[1]
       /\ S' = IF Block(ed[1]) = Block(a) THEN S
               ELSE InBlock(Full, {p \in UNION {Next1(Full, r) : r \in S} : Letter(Full, p) = Stmt(ed[1])}, Block(ed[1]))
  /\ e' = e /\ Keep

Spec == Init /\ [][WalkDag \/ WalkEsg]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
\* every witness path is a path along recorded edges from a seed to the query
Sound == m = "sound" => S # {} /\ (IsEnd(Full, a) => S \cap Seeds # {})
\* every path of an acyclic supergraph has a witness through the same blocks
\* that leaves each of them at the same statement
Complete == m = "compl" => S # {} /\ (a \in TrueSeeds => \E p \in S : IsEnd(Full, p))
\* minimizing keeps the set of witness paths
SameLanguage == m = "same" => S # {} /\ (IsEnd(Dag(x), a) => \E p \in S : IsEnd(Dag(y), p))
\* a depth limit cuts paths off, it changes nothing else
Shortened == /\ m = "suffix" => S # {}
             /\ m = "short" => S # {} /\ (IsEnd(Dag(x), a) => \E p \in S : IsEnd(Dag(y), p))
\* reversing a graph turns its edges around; leaves become roots
Reversed == Case.kind = "dag" /\ e = 0 /\ x = 1 =>
  LET D == Full  R == D.rev IN
  /\ R.labels = D.labels
  /\ Range(R.edges) = {<<ed[2], ed[1]>> : ed \in Range(D.edges)}
  /\ Range(R.roots) = {p[1] : p \in Starts(D)}
WellFormed == \A v \in DOMAIN Dag(x).labels : Dag(x).labels[v] # <<>>

View == [case |-> c, query |-> q, game |-> m, x |-> x, y |-> y, at |-> a, matching |-> S, depth |-> e]
=============================================================================
