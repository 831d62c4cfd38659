-------------------------------- MODULE ICFG --------------------------------
(* Inter-procedural control-flow graphs (C08).  The state machine discovers    *)
(* the program from its entry points: one discovered function at a time is     *)
(* walked and the targets of its calls are discovered.  Direct calls (also     *)
(* through casts and aliases) have exactly one target; the targets of indirect *)
(* calls are those the recorded call graph names (their soundness is C07).     *)
(* When nothing is left to walk, every recorded answer of the real ICFG, of    *)
(* its backward view and of the call graph stored and loaded again must match. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Progs == JsonDeserialize(IOEnv.ICFG_OBS)
Rng(s) == {s[k] : k \in 1..Len(s)}
VARIABLES p, r, funs, seen, todo
vars == <<p, r, funs, seen, todo>>
R == Progs[p].runs[r]
Model == "__psrCRuntimeGlobalCtorsModel"
FunsOf(q, s) == LET all == Progs[q].funs \o Progs[q].runs[s].extra IN
                [n \in {all[k].name : k \in 1..Len(all)} |-> all[CHOOSE k \in 1..Len(all) : all[k].name = n]]
EntriesOf(q, s) == LET run == Progs[q].runs[s] IN
  IF run.globals THEN {Model}
  ELSE IF run.entries = <<"__ALL__">> THEN {Progs[q].funs[k].name : k \in {j \in 1..Len(Progs[q].funs) : ~Progs[q].funs[j].decl /\ Progs[q].funs[j].ext}}
  ELSE {n \in Rng(run.entries) : \E k \in 1..Len(Progs[q].funs) : Progs[q].funs[k].name = n /\ ~Progs[q].funs[k].decl}
St(f) == funs[f].st
Rec(f) == R.f[f]
\* targets of statement k of f
Targets(f, k) == LET s == St(f)[k] IN
   IF ~s.call \/ s.to = "!asm" THEN {}
   ELSE IF s.to = "!ind" THEN Rng(R.cgraph.callees[f][k])
   ELSE {s.to}

Init == /\ p \in 1..Len(Progs) /\ r \in 1..Len(Progs[p].runs)
        /\ funs = FunsOf(p, r)
        /\ seen = EntriesOf(p, r) /\ todo = EntriesOf(p, r)
Walk(f) == /\ f \in todo
           /\ \E new \in {UNION {Targets(f, k) : k \in 1..Len(St(f))} \ seen} :
                 seen' = seen \cup new /\ todo' = (todo \ {f}) \cup new
           /\ UNCHANGED <<p, r, funs>>
\* the discovery order does not matter: the least name first in most runs, any order in some
Next == IF p % 40 = 0 THEN \E f \in todo : Walk(f) ELSE todo # {} /\ Walk(CHOOSE f \in todo : TRUE)
Spec == Init /\ [][Next]_vars

Done == todo = {}
Defined(f) == ~funs[f].decl
F == DOMAIN funs
Calls(f) == {k \in 1..Len(St(f)) : St(f)[k].call}
Walked(f) == f \in seen
Id(f, k) == f \o "#" \o ToString(k)
DbgSkip(f, k) == IF f \in DOMAIN funs /\ St(f)[k].dbg THEN k + 1 ELSE k
RECURSIVE Skip(_, _)
Skip(f, k) == IF St(f)[k].dbg THEN Skip(f, k + 1) ELSE k
Live(f) == {k \in 1..Len(St(f)) : ~St(f)[k].dbg}
Succ(f, k) == {Skip(f, x) : x \in Rng(St(f)[k].nx)}
Exits(f) == {k \in 1..Len(St(f)) : St(f)[k].exit # "no"}
FirstOf(f) == IF Defined(f) THEN {Skip(f, 1)} ELSE {}
NoDup(s) == Len(s) = Cardinality(Rng(s))

Functions == Done => Rng(R.allfuns) = F /\ NoDup(R.allfuns) /\ R.nofun /\ \A f \in F : Rec(f).get
Shape == Done => \A f \in F : Len(Rec(f).succ) = Len(St(f))
\* callees: of discovered functions the targets, of others nothing
Callees(G) == \A f \in F : \A k \in 1..Len(St(f)) :
   /\ NoDup(G.callees[f][k])
   /\ Rng(G.callees[f][k]) = (IF Walked(f) THEN Targets(f, k) ELSE {})
\* callers and callees are inverse
Inverse(G) == \A f \in F : /\ NoDup(G.callers[f])
   /\ Rng(G.callers[f]) = UNION {{Id(g, k) : k \in {x \in 1..Len(St(g)) : f \in Rng(G.callees[g][x])}} : g \in F}
Forward == Done => Callees(R.cgraph) /\ Inverse(R.cgraph)
Backward == Done => R.cgbw = R.cgraph /\ R.cgown = R.cgraph
Indirect == Done => \A f \in F : \A k \in Calls(f) : St(f)[k].to = "!ind" =>
   /\ Rng(R.cgraph.callees[f][k]) \subseteq F
   /\ (R.cg = "NORESOLVE" => R.cgraph.callees[f][k] = <<>>)
Vertices == Done =>
   /\ Rng(R.vf) = seen /\ NoDup(R.vf) /\ R.vf2 = R.vf /\ R.nvf = Cardinality(seen) /\ R.size = R.nvf /\ R.empty = (seen = {})
   /\ Rng(R.vcs) = UNION {{Id(f, k) : k \in Calls(f)} : f \in seen} /\ NoDup(R.vcs) /\ R.nvcs = Len(R.vcs)
\* stored and loaded again: same edges in both directions
SameEdges(G, H) == /\ \A f \in F : Rng(G.callers[f]) = Rng(H.callers[f]) /\ Len(G.callers[f]) = Len(H.callers[f])
                   /\ \A f \in F : \A k \in 1..Len(St(f)) : Rng(G.callees[f][k]) = Rng(H.callees[f][k]) /\ Len(G.callees[f][k]) = Len(H.callees[f][k])
Loaded == Done => SameEdges(R.cgraph, R.cgload) /\ Rng(R.vfload) = seen /\ R.nload = <<TRUE, TRUE>>
\* vertices without edges: the format only stores call sites that have callees (known finding), no others may be lost or appear
LoadedSites == Done => Rng(R.vcsload) = {Id(e[1], e[2]) : e \in {x \in UNION {{<<f, k>> : k \in Calls(f)} : f \in seen} : Rng(R.cgraph.callees[x[1]][x[2]]) # {}}}
Within == Done => \A f \in F : /\ Rng(Rec(f).calls) = Calls(f) /\ NoDup(Rec(f).calls)
                               /\ Rng(Rec(f).bcalls) = Calls(f) /\ NoDup(Rec(f).bcalls)
\* backwards: the predecessors, or the artificial return (also where dead code starts)
BackSuccOK(f, k, S) == LET pr == {m \in Live(f) : k \in Succ(f, m)} IN
   /\ S \ {0} = pr /\ ({k} = FirstOf(f) => 0 \in S) /\ (0 \in S => {k} = FirstOf(f) \/ pr = {})
ReturnSites == Done => \A f \in F : \A k \in 1..Len(St(f)) :
   /\ Rng(Rec(f).succ[k]) = Succ(f, k)
   /\ St(f)[k].call => /\ Rng(Rec(f).rets[k]) = Succ(f, k)
                       /\ k \in Live(f) => BackSuccOK(f, k, Rng(Rec(f).brets[k]))
Intra == Done => \A f \in F : /\ Rec(f).cfgsame
   /\ \A k \in Live(f) : /\ Rng(Rec(f).pred[k]) = {m \in Live(f) : k \in Succ(f, m)}
                         /\ BackSuccOK(f, k, Rng(Rec(f).bsucc[k]))
                         /\ Rng(Rec(f).bpred[k]) = Succ(f, k)
   /\ Rng(Rec(f).starts) = FirstOf(f) /\ Rng(Rec(f).exits) = Exits(f)
   /\ Rng(Rec(f).bstarts) = Exits(f)
   /\ Rec(f).bexits = (IF Defined(f) THEN <<0>> ELSE <<>>)
Flags == Done => \A f \in F : \A k \in 1..Len(St(f)) :
   /\ Rec(f).call[k] = St(f)[k].call /\ Rec(f).bflags[k][3] = St(f)[k].call
   /\ (St(f)[k].to = "!ind") => Rec(f).ind[k]
   /\ (~St(f)[k].call) => ~Rec(f).ind[k]
   /\ ~Rec(f).virt[k] /\ ~Rec(f).bflags[k][2] /\ Rec(f).bflags[k][1] = Rec(f).ind[k]
All == UNION {{<<f, k>> : k \in 1..Len(St(f))} : f \in F}
NonStart == Done =>
   /\ NoDup(R.nonstart) /\ Rng(R.nonstart) = {Id(e[1], e[2]) : e \in {x \in All : ~St(x[1])[x[2]].call /\ {x[2]} # FirstOf(x[1])}}
   /\ Rng(R.bnonstart) \ {"unknown"} = {Id(e[1], e[2]) : e \in {x \in All : ~St(x[1])[x[2]].call /\ St(x[1])[x[2]].exit # "ret"}}
Generated == \A k \in 1..Len(R.extra) : R.extra[k].gen
=============================================================================
