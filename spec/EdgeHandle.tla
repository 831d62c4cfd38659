----------------------------- MODULE EdgeHandle -----------------------------
(* Handles of edge functions (C04): value semantics of the ref-counted,        *)
(* small-object-optimised, optionally cached EdgeFunction objects.  A slot     *)
(* holds nothing or an object; objects of a cache are unique per value while   *)
(* they live.  Replays recorded operation sequences; an operation whose real   *)
(* outcome the specification does not produce deadlocks.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.EH_TRACE)
NS == 4
Slots == 1..NS
Null == [kind |-> "null", val |-> -1, id |-> 0]

VARIABLES t, k, slot, next
vars == <<t, k, slot, next>>
Ev == Traces[t][k]

Live(kind, v) == {slot[i] : i \in {j \in Slots : slot[j].kind = kind /\ slot[j].val = v}}
\* a fresh object; a cache hands out the live object of that value; small objects are identified by value
Make(kind, v) ==
  IF kind = "soo" THEN [kind |-> kind, val |-> v, id |-> -v - 1]
  ELSE IF kind \in {"cache0", "cache1"} /\ Live(kind, v) # {} THEN CHOOSE o \in Live(kind, v) : TRUE
  ELSE [kind |-> kind, val |-> v, id |-> next]

After(o) ==
  LET i == o.i + 1  j == o.j + 1  v == o.k IN
  CASE o.o = "soo" -> [slot EXCEPT ![i] = Make("soo", v % 4)]
    [] o.o \in {"heap", "inplace"} -> [slot EXCEPT ![i] = Make("heap", v % 4)]
    [] o.o \in {"cache0", "cache1"} -> [slot EXCEPT ![i] = Make(o.o, v % 4)]
    [] o.o \in {"copy", "copyctor", "ref"} -> [slot EXCEPT ![i] = slot[j]]
    [] o.o \in {"move", "moveassign"} -> [m \in Slots |-> IF m = i THEN slot[j] ELSE IF m = j THEN Null ELSE slot[m]]
    [] o.o = "swap" -> [slot EXCEPT ![i] = slot[j], ![j] = slot[i]]
    [] o.o = "null" -> [slot EXCEPT ![i] = Null]

Shows(s, st) == \A a \in Slots :
   /\ st[a].ok = (s[a].kind # "null") /\ st[a].val = s[a].val /\ st[a].kind = s[a].kind
   /\ st[a].rc = (s[a].kind \in {"heap", "cache0", "cache1"})
   /\ \A b \in Slots :
        /\ st[a].same[b] = ((s[a].kind = "null" /\ s[b].kind = "null") \/ (s[a].id = s[b].id /\ s[a].kind = s[b].kind))
        /\ st[a].eq[b] = ((s[a].kind = "null") = (s[b].kind = "null") /\ s[a].val = s[b].val
                            /\ (s[a].kind = "soo") = (s[b].kind = "soo"))

Init == t \in 1..Len(Traces) /\ k = 1 /\ slot = [i \in Slots |-> Null] /\ next = 1
Step == /\ k <= Len(Traces[t])
        /\ \E s \in {After(Ev.op)} : Shows(s, Ev.st) /\ slot' = s
        /\ next' = next + 1 /\ k' = k + 1 /\ UNCHANGED t
Done == k > Len(Traces[t]) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
=============================================================================
