----------------------------- MODULE DriveConf -----------------------------
(* Accepts the traces recorded while the real solver was driven by scripts. *)
EXTENDS Drive, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VF_TRACES)
VARIABLES idx, i, K
vars == <<idx, i, K>>
Tr == Traces[idx]
T == Len(Tr.cum) - 1
Init == idx \in DOMAIN Traces /\ i = 1 /\ K = {0}
\* the work observed (ff) has to be that of the step reached; not recorded (0) once finalised
Work(o, k) == o.ret = "value" \/ Tr.cum[k + 1] = o.ff
Event == /\ i <= Len(Tr.ev)
         /\ LET o == Tr.ev[i]
            IN K' = {k \in UNION {After(o, j, T, Tr.cum) : j \in K} : Work(o, k)}
         /\ i' = i + 1
         /\ UNCHANGED idx
Spec == Init /\ [][Event]_vars
Accepted == K # {}
FinishedAtEnd == i > Len(Tr.ev) => K = {T} /\ Tr.ev[Len(Tr.ev)].ret = "value"
=============================================================================
