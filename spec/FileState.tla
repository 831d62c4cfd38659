----------------------------- MODULE FileState -----------------------------
(***************************************************************************)
(* Executions of programs over file handles (C16).  A handle is opened,     *)
(* used and closed; a variable that was never assigned behaves like a       *)
(* handle of its own that was never opened.  Handles are passed to and      *)
(* returned from functions.  In every state of every execution the state    *)
(* reported for each variable of the running function has to cover the one  *)
(* of the handle it holds.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Progs == JsonDeserialize(IOEnv.VF_INSTANCES)
MaxSteps == atoi(IOEnv.VF_STEPS)
MaxChoices == atoi(IOEnv.VF_CHOICES)

VARIABLES idx, stack, hs, steps, ch
vars == <<idx, stack, hs, steps, ch>>
P == Progs[idx]
Fn(f) == P.funs[f]

\* the automaton of a handle
Closing(s) == IF s = "OPENED" THEN "CLOSED" ELSE "ERROR"
Using(s) == IF s = "OPENED" THEN "OPENED" ELSE "ERROR"

\* a new activation: parameters, then one never opened handle per local variable; dst: variable of the
\* caller that gets the returned handle.  A variable without a handle (0) is assigned before it is used.
NewFrame(f, args, n, dst) == [fn |-> f, pc |-> 1, env |-> args \o [k \in 1..(Len(Fn(f).vars) - Len(args)) |-> IF Fn(f).late[Len(args) + k] THEN 0 ELSE n + k], dst |-> dst]
NewHandles(f) == [k \in 1..(Len(Fn(f).vars) - Fn(f).np) |-> "UNINIT"]

Init == /\ idx \in DOMAIN Progs
        /\ stack = <<NewFrame(Progs[idx].main, <<>>, 0, 0)>>
        /\ hs = NewHandles(Progs[idx].main)
        /\ steps = 0 /\ ch = 0

Top == stack[Len(stack)]
S == Fn(Top.fn).code[Top.pc]
Go(fr) == [stack EXCEPT ![Len(stack)] = fr]
Under == stack[Len(stack) - 1]
Next ==
  /\ stack # <<>> /\ steps < MaxSteps
  /\ steps' = steps + 1 /\ UNCHANGED idx
  /\ \E k \in 1..Len(S.nx) :
       /\ Len(S.nx) > 1 => ch < MaxChoices
       /\ ch' = IF Len(S.nx) > 1 THEN ch + 1 ELSE ch
       /\ \/ /\ S.op \in {"nop", "br"}
             /\ stack' = Go([Top EXCEPT !.pc = S.nx[k]]) /\ UNCHANGED hs
          \/ /\ S.op = "open"
             /\ hs' = Append(hs, "OPENED")
             /\ stack' = Go([Top EXCEPT !.pc = S.nx[k], !.env[S.x] = Len(hs) + 1])
          \/ /\ S.op \in {"close", "use"}
             /\ hs' = [hs EXCEPT ![Top.env[S.x]] = IF S.op = "close" THEN Closing(@) ELSE Using(@)]
             /\ stack' = Go([Top EXCEPT !.pc = S.nx[k]])
          \/ /\ S.op = "copy"
             /\ stack' = Go([Top EXCEPT !.pc = S.nx[k], !.env[S.dst] = Top.env[S.x]]) /\ UNCHANGED hs
          \/ /\ S.op = "call"
             /\ stack' = Append(Go([Top EXCEPT !.pc = S.nx[k]]), NewFrame(S.f, [a \in 1..Len(S.args) |-> Top.env[S.args[a]]], Len(hs), S.dst))
             /\ hs' = hs \o NewHandles(S.f)
          \/ /\ S.op = "ret"
             /\ UNCHANGED hs
             /\ stack' = IF Len(stack) = 1 THEN <<>>
                         ELSE [SubSeq(stack, 1, Len(stack) - 1) EXCEPT ![Len(stack) - 1] =
                                 IF Top.dst = 0 THEN Under ELSE [Under EXCEPT !.env[Top.dst] = Top.env[S.x]]]
Spec == Init /\ [][Next]_vars

\* reported state of each variable of the running function before the statement that is executed next
Reported == P.rep[Top.fn][Top.pc]
Bad == IF stack = <<>> THEN {}
       ELSE {v \in 1..Len(Top.env) : Top.env[v] # 0 /\ Reported[v] \notin {"?", hs[Top.env[v]]} \cup (IF Fn(Top.fn).exact THEN {} ELSE {"BOT"})}
Covered == Bad = {}
View == [program |-> idx, stack |-> stack, handles |-> hs, variables |-> Bad, reported |-> IF stack = <<>> THEN <<>> ELSE Reported]
=============================================================================
