----------------------------- MODULE TabOrder -----------------------------
(* The tabulation machine one path edge at a time, in every possible order: *)
(* all orders end in the same result, and it is the implementation's.       *)
EXTENDS TabConf
ONext == \/ (ProcessOne({}) \/ Finish) /\ UNCHANGED <<idx, mode, upper, past>>
OSpec == CInit /\ [][ONext]_cvars
=============================================================================
