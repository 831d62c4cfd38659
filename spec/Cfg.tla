-------------------------------- MODULE Cfg --------------------------------
(* Control flow of IR functions (C09).  The state machine executes a function  *)
(* statement by statement over its explicit control-flow graph, in two modes:  *)
(* debug statements ignored or not.  In every reachable state the recorded     *)
(* answers of the real forward CFG must describe exactly the steps the machine *)
(* can take, and those of the backward CFGs their reverse.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Progs == JsonDeserialize(IOEnv.CFG_INST)
Rng(s) == {s[k] : k \in 1..Len(s)}

VARIABLES p, f, mode, n
vars == <<p, f, mode, n>>
Fn == Progs[p].funs[f]
S(F, k) == F.st[k]
RECURSIVE Skip(_, _, _)
Skip(F, m, k) == IF m = "ign" /\ S(F, k).dbg THEN Skip(F, m, k + 1) ELSE k
Live(F, m) == {k \in 1..Len(F.st) : m = "dbg" \/ ~S(F, k).dbg}
Step(F, m, k) == {Skip(F, m, x) : x \in Rng(S(F, k).nx)}
First(F, m) == Skip(F, m, 1)

Init == p \in 1..Len(Progs) /\ f \in 1..Len(Progs[p].funs) /\ mode \in {"ign", "dbg"} /\ n = First(Fn, mode)
Next == n' \in Step(Fn, mode, n) /\ UNCHANGED <<p, f, mode>>
Spec == Init /\ [][Next]_vars

Rec == Fn[mode]
FW == Rec.fw
BW == Rec.bw
BR == Rec.br     \* backward CFG with an artificial return 0 per function
Preds == {k \in Live(Fn, mode) : n \in Step(Fn, mode, k)}
AtStart == n = First(Fn, mode)
Exits == {k \in 1..Len(Fn.st) : S(Fn, k).exit # "no"}

Numbering == Fn.n = Len(Fn.st) /\ Fn.fname = Fn.name /\ Rng(FW.all) = 1..Fn.n /\ \A k \in 1..Fn.n : FW.fo[k] /\ BR.fo[k]
Succs == Rng(FW.succ[n]) = Step(Fn, mode, n)
Preds_ == Rng(FW.pred[n]) = Preds
Starts == Rng(FW.starts) = {First(Fn, mode)} /\ FW.start[n] = AtStart
ExitPoints == Rng(FW.exits) = Exits
\* normal exits; exceptional exits (resume) are covered by ResumeExit
RetExit == S(Fn, n).exit # "resume" => FW.exit[n] = (S(Fn, n).exit = "ret") /\ BW.start[n] = FW.exit[n] /\ BR.start[n] = FW.exit[n]
ResumeExit == S(Fn, n).exit = "resume" => FW.exit[n] /\ BW.start[n] /\ BR.start[n]
Edges == AtStart => /\ Rng(FW.edges) = {<<e[1], e[2]>> : e \in UNION {{<<k, m>> : m \in Step(Fn, mode, k)} : k \in Live(Fn, mode)}}
Class == /\ FW.call[n] = S(Fn, n).call /\ BW.call[n] = S(Fn, n).call
         /\ FW.fl[n] = S(Fn, n).fl /\ FW.fs[n] = S(Fn, n).fs
Targets(k) == {Skip(Fn, mode, x) : x \in Rng(S(Fn, k).bt)}
Branch == /\ \A m \in Live(Fn, mode) : (m \in Rng(FW.bt[n])) = (m \in Targets(n))
          /\ S(Fn, n).br > 0 => \A m \in Live(Fn, mode) : (m \in Rng(FW.ft[n])) = (m = Skip(Fn, mode, S(Fn, n).fall[1]))
          /\ S(Fn, n).br = 0 => FW.ft[n] = <<>>
\* the backward CFGs are the exact reverse
Backward == /\ Rng(BW.succ[n]) = Preds /\ Rng(BW.pred[n]) = Step(Fn, mode, n)
            /\ Rng(BW.starts) = Exits /\ Rng(BW.exits) = {First(Fn, mode)} /\ BW.exit[n] = AtStart
            /\ Rng(BR.succ[n]) = Preds \cup (IF AtStart THEN {0} ELSE {}) /\ Rng(BR.pred[n]) = Step(Fn, mode, n)
            /\ Rng(BR.starts) = Exits /\ BR.exits = <<0>> /\ ~BR.exit[n]
BackRet == AtStart => BR.bsucc = <<>> /\ BR.bpred = <<n>> /\ BR.bexit /\ ~BR.bstart /\ BR.bfun
BackBranch == \A m \in Live(Fn, mode) : (m \in Rng(BW.bt[n])) = (n \in Targets(m)) /\ (m \in Rng(BR.bt[n])) = (n \in Targets(m))
Heads == {k \in Live(Fn, mode) : \A m \in Live(Fn, mode) : k \notin Step(Fn, mode, m)}
BackEdges == AtStart => LET E == {<<e[1], e[2]>> : e \in UNION {{<<m, k>> : m \in Step(Fn, mode, k)} : k \in Live(Fn, mode)}}
   IN /\ Rng(BW.edges) = E
      /\ E \cup {<<First(Fn, mode), 0>>} \subseteq Rng(BR.edges)
      /\ Rng(BR.edges) \subseteq E \cup {<<h, 0>> : h \in Heads}     \* dead blocks may end at the artificial return
Special == (Fn.kind \in {"any", Fn.sm}) /\ (Fn.issm = (Fn.sm # "none"))
=============================================================================
