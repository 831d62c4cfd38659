------------------------------ MODULE CRuntime ------------------------------
(* The C/C++ runtime around the entry points (C17).  The state machine executes *)
(* the model functions generated by the real code (recorded statement by       *)
(* statement) and writes down the calls to program functions.  Along every     *)
(* execution they must be what the language prescribes: constructors in        *)
(* ascending priority (declaration order within one), the selected entry       *)
(* point, and after main the destructors registered while constructing in      *)
(* reverse order (those of local statics, registered later, first), then the   *)
(* static destructors in descending priority (reverse declaration order).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Progs == JsonDeserialize(IOEnv.CRT_OBS)
Rng(s) == {s[k] : k \in 1..Len(s)}
VARIABLES p, r, stack, log
vars == <<p, r, stack, log>>
P == Progs[p]
R == P.runs[r]
Gen == R.gen                       \* generated functions: name -> statements
Model == "__psrCRuntimeGlobalCtorsModel"
Selector == "__psrCRuntimeUserEntrySelector"

\* what the language prescribes
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF x.prio < s[1].prio THEN <<x>> \o s ELSE <<s[1]>> \o Insert(x, Tail(s))
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(s[Len(s)], Sort(SubSeq(s, 1, Len(s) - 1)))
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Rev(Tail(s)) \o <<s[1]>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Ev(s) == [k \in 1..Len(s) |-> <<s[k].fn, <<>> >>]
CtorSeq == Sort(P.ctors)
\* run the constructors: the destructors they register, in order
Registered == Flat([k \in 1..Len(CtorSeq) |-> CtorSeq[k].registers])
Dtors == Rev([k \in 1..Len(Registered) |-> <<Registered[k].fn, <<Registered[k].obj>> >>]) \o Rev(Ev(Sort(P.dtors)))
LocalRegs == [k \in 1..Len(P.locals) |-> <<P.locals[k].fn, <<P.locals[k].obj>> >>]
Entries == IF R.entries = <<"__ALL__">> THEN Rng(P.all) ELSE Rng(R.entries)
EntryCall(e) == <<e, IF e = "main" /\ P.mainargs THEN <<"$0", "$1">> ELSE <<>> >>
\* the destructors of local statics come first after main, in any order (registered whenever first executed)
Perms(s) == {[k \in 1..Len(s) |-> s[f[k]]] : f \in {g \in [1..Len(s) -> 1..Len(s)] : \A a, b \in 1..Len(s) : g[a] = g[b] => a = b}}
Tails(e) == IF e = "main" THEN {l \o Dtors : l \in Perms(LocalRegs)} ELSE {<<>>}
Expected == UNION {{Ev(CtorSeq) \o <<EntryCall(e)>> \o t : t \in Tails(e)} : e \in Entries}

Init == /\ p \in 1..Len(Progs) /\ r \in 1..Len(Progs[p].runs)
        /\ stack = <<[fn |-> Model, pc |-> 1]>> /\ log = <<>>
Top == stack[Len(stack)]
Stm == Gen[Top.fn][Top.pc]
Below == SubSeq(stack, 1, Len(stack) - 1)
Next ==
  /\ stack # <<>> /\ UNCHANGED <<p, r>>
  /\ \/ /\ Stm.op = "ret" /\ stack' = Below /\ UNCHANGED log
     \/ /\ Stm.op = "call" /\ Stm.fn \in DOMAIN Gen
        /\ stack' = Below \o <<[fn |-> Top.fn, pc |-> Top.pc + 1], [fn |-> Stm.fn, pc |-> 1]>> /\ UNCHANGED log
     \/ /\ Stm.op = "call" /\ Stm.fn \notin DOMAIN Gen
        /\ stack' = Below \o <<[fn |-> Top.fn, pc |-> Top.pc + 1]>>
        /\ log' = IF Stm.fn = Selector THEN log ELSE Append(log, <<Stm.fn, Stm.args>>)
     \/ /\ Stm.op = "other" /\ \E n \in Rng(Stm.nx) : stack' = Below \o <<[fn |-> Top.fn, pc |-> n]>>
        /\ UNCHANGED log
Spec == Init /\ [][Next]_vars

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Order == \E x \in Expected : Prefix(log, x)
Complete == stack = <<>> => log \in Expected
\* each requested entry point can be selected: the entry calls reachable in the model
Selectable == log = <<>> /\ Len(stack) = 1 /\ Top.pc = 1 =>
   \A e \in Entries : \E k \in 1..Len(Gen[Model]) : Gen[Model][k].op = "call" /\ Gen[Model][k].fn = e /\ k \in Rng(R.reach)
Marked == R.marked /\ R.valid /\ R.idsok
=============================================================================
