------------------------------- MODULE Drive -------------------------------
(***************************************************************************)
(* The protocol of interruptible solving.  A problem needs T >= 1 steps;   *)
(* k of them have been done.  Operations advance k and return whether      *)
(* there is more to do, whether the run was cancelled or that it finished. *)
(*                                                                         *)
(* The module is used twice: DriveGen enumerates scripts of operations to  *)
(* be replayed on the real solver; DriveConf accepts the recorded trace of *)
(* each replay.  How far a run gets until a timed check is not determined, *)
(* so DriveConf tracks the set K of possible k.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Min(a, b) == IF a < b THEN a ELSE b

\* Operation o (record op, arg, ret, calls, flag) is possible from k with the given
\* return value: the set of resulting k.  T: number of steps; cum[k + 1]: work done
\* (flow function evaluations) after k steps.
After(o, k, T, cum) ==
  CASE o.op = "init"  -> IF (o.ret = "true") = (T > 0) THEN {k} ELSE {}
    [] o.op \in {"next", "nextn"} ->
         IF (o.ret = "true") = (k + o.arg < T) THEN {Min(T, k + o.arg)} ELSE {}
    [] o.op \in {"solve", "continue"} -> IF o.ret = "value" THEN {T} ELSE {}
    [] o.op = "finalize" -> IF k = T THEN {T} ELSE {}
    [] o.op \in {"suntil", "cuntil"} ->
         \* no results exactly if the predicate fired (at its arg-th invocation); a
         \* fired predicate is not asked again; between two invocations there is progress
         IF o.ret = "none"
         THEN IF o.arg > 0 /\ o.calls = o.arg
              THEN IF o.op = "suntil" /\ o.calls = 1 THEN {0}
                   ELSE {j \in k..T : j >= Min(T, k + o.calls - (IF o.op = "suntil" THEN 1 ELSE 0))}
              ELSE {}
         ELSE IF o.calls >= 1 /\ (o.arg = 0 \/ o.calls < o.arg) THEN {T} ELSE {}
    [] o.op \in {"stimeout", "ctimeout"} ->
         \* arg 0: expired from the start, arg 1: unreachable
         IF o.ret = "none" THEN (IF o.arg = 0 THEN (IF o.op = "stimeout" THEN {0} ELSE k..T) ELSE {})
         ELSE IF o.arg = 1 THEN {T} ELSE {}
    [] o.op \in {"sasync", "casync"} ->
         \* the flag is up on entry (calls = 1), or raised by evaluation number arg,
         \* i.e. in the first step whose work reaches arg; or never (arg = 0).
         \* The flag is looked at after initialisation and after every step.
         LET hit(j) == o.arg > 0 /\ j > k /\ cum[j + 1] >= o.arg
             stopAt == IF o.calls = 1 THEN IF o.op = "sasync" THEN 0 ELSE Min(T, k + 1)
                       ELSE IF \E j \in k..T : hit(j)
                            THEN CHOOSE j \in k..T : hit(j) /\ \A i \in k..T : hit(i) => j <= i
                            ELSE T + 1
         IN IF o.ret = "none" THEN (IF stopAt <= T THEN {stopAt} ELSE {})
            ELSE IF stopAt > T THEN {T} ELSE {}
    [] OTHER -> {}
=============================================================================
