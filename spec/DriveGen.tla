----------------------------- MODULE DriveGen -----------------------------
(* Enumerates all scripts of up to Len operations that the protocol allows; *)
(* a script assumes that every operation leaves work to be done.            *)
EXTENDS Naturals, Sequences, TLC
CONSTANT MaxLen
VARIABLES h, st      \* script so far; "fresh" | "stepping" | "interrupted"
Init == h = <<>> /\ st = "fresh"
Op(name, a, iv) == h' = Append(h, <<name, a, iv>>)
Step == \/ st = "fresh" /\ Op("init", 0, 0) /\ st' = "stepping"
        \/ st = "stepping" /\ (Op("next", 1, 0) \/ \E n \in {1, 3, 8} : Op("nextn", n, 0)) /\ UNCHANGED st
        \/ (\E j \in {0, 1, 2, 3}, iv \in {0, 1} : Op("until", j, iv)) /\ st' = "interrupted"
        \/ (\E t \in {0, 1} : Op("timeout", t, 1)) /\ st' = "interrupted"
        \/ (\E a \in {0, 1, 2, 5, 20, 99} : Op("async", a, 0)) /\ st' = "interrupted"
        \/ Op("run", 0, 0) /\ st' = "interrupted"
Next == Len(h) < MaxLen /\ (h # <<>> => h[Len(h)][1] # "run") /\ Step
Spec == Init /\ [][Next]_<<h, st>>
Emit == h # <<>> => PrintT(<<"VF", h>>)
=============================================================================
