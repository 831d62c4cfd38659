------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Executions of object-oriented programs: objects of classes with single  *)
(* inheritance, virtual methods, virtual destructors, function pointers in  *)
(* variables, globals, struct fields and tables.  Whenever an execution     *)
(* performs a call, its callee is among the callees the call graph reports  *)
(* for the call site.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Progs == JsonDeserialize(IOEnv.VF_INSTANCES)
Impl  == JsonDeserialize(IOEnv.VF_RESULTS)   \* Impl[idx]: algorithm -> site -> function numbers
MaxLevel == atoi(IOEnv.VF_LEVEL)

VARIABLES idx, st
vars == <<idx, st>>
P == Progs[idx]

Null == <<"n", 0>>
Obj(i) == <<"o", i>>
Fun(i) == <<"f", i>>

\* the final overrider of method m (1..4, 5: deleting destructor) for objects of class c
RECURSIVE Over(_, _, _)
Over(Pr, c, m) ==
  IF c = 0 THEN 0
  ELSE IF Pr.classes[c].decl[m] # 0 THEN Pr.classes[c].decl[m] ELSE Over(Pr, Pr.classes[c].base, m)
RECURSIVE IsA(_, _, _)
IsA(Pr, c, s) == c = s \/ (c # 0 /\ Pr.classes[c].base # 0 /\ IsA(Pr, Pr.classes[c].base, s))
\* a destructor is generated implicitly if only a base declares one
HasImplicitDtor(Pr, c) == Pr.classes[c].decl[5] = 0
Callees(Pr, c, m) == IF m = 5 /\ HasImplicitDtor(Pr, c) THEN -c ELSE Over(Pr, c, m)

Frame(f, args, res) ==
  LET F == P.funs[f] IN
  [f |-> f, pc |-> 1, res |-> res, v |-> [k \in 1..F.nv |-> IF k <= Len(args) THEN args[k] ELSE Null]]

GObjs == [k \in 1..Len(P.gobjs) |-> [c |-> P.gobjs[k], nx |-> Null, cb |-> Null, cv |-> Null, mb |-> Null]]
Init ==
  /\ idx \in DOMAIN Progs
  /\ st = [stk |-> << [f |-> Progs[idx].main, pc |-> 1, res |-> 0, v |-> [k \in 1..Progs[idx].funs[Progs[idx].main].nv |-> Null]] >>,
           heap |-> [k \in 1..Len(Progs[idx].gobjs) |-> [c |-> Progs[idx].gobjs[k], nx |-> Null, cb |-> Null, cv |-> Null, mb |-> Null]],
           g |-> <<Null, Null>>, done |-> FALSE, ch |-> 0]

Top == Last(st.stk)
S == P.funs[Top.f].code[Top.pc]
V(k) == Top.v[k]
WithTop(t) == [st EXCEPT !.stk[Len(st.stk)] = t]
Adv(t) == [t EXCEPT !.pc = @ + 1]
Set(k, val) == WithTop(Adv([Top EXCEPT !.v[k] = val]))
FnVal(n) == IF n = 0 THEN Null ELSE Fun(n)

\* the function a call statement calls (0: none, the execution ends in undefined behaviour;
\* negative: the implicit deleting destructor of a class)
Callee ==
  CASE S.op = "call" -> S.a
    [] S.op = "vcall" -> IF V(S.a) = Null THEN 0 ELSE Callees(P, st.heap[V(S.a)[2]].c, S.b)
    [] S.op = "fcall" -> V(S.a)[2]
    [] S.op = "scall" -> (IF S.b = 1 THEN st.heap[V(S.a)[2]].cb ELSE st.heap[V(S.a)[2]].cv)[2]
    [] OTHER -> 0
IsCall == S.op \in {"call", "vcall", "fcall", "scall"}
Args == (IF S.op = "vcall" THEN <<V(S.a)>> ELSE <<>>) \o [k \in 1..Len(S.args) |-> V(S.args[k])]

\* the objects created with an object of class c: itself and, for one class, a member object
NewObjs(c) ==
  LET o == [c |-> c, nx |-> Null, cb |-> Null, cv |-> Null, mb |-> Null] IN
  IF P.mem[1] # 0 /\ IsA(P, c, P.mem[1]) THEN <<[o EXCEPT !.mb = Obj(Len(st.heap) + 2)], [o EXCEPT !.c = P.mem[2]]>>
  ELSE <<o>>

Steps ==
  CASE IsCall ->
         IF Callee = 0 THEN {[st EXCEPT !.done = TRUE]}
         ELSE IF Callee < 0 THEN {WithTop(Adv(Top))}
         ELSE {[WithTop(Adv(Top)) EXCEPT !.stk = Append(@, Frame(Callee, Args, S.c))]}
    [] S.op = "new" -> {[Set(S.a, Obj(Len(st.heap) + 1)) EXCEPT !.heap = @ \o NewObjs(S.b)]}
    [] S.op = "news" -> {[Set(S.a, Obj(Len(st.heap) + 1)) EXCEPT !.heap = Append(@, [c |-> 0, nx |-> Null, cb |-> FnVal(S.b), cv |-> FnVal(S.c), mb |-> Null])]}
    [] S.op = "gobj" -> {Set(S.a, Obj(CHOOSE k \in 1..Len(P.gobjs) : P.gobjs[k] = S.b))}
    [] S.op = "asg" -> {Set(S.a, V(S.b))}
    [] S.op = "fset" -> {Set(S.a, Fun(S.b))}
    [] S.op = "ftab" -> {Set(S.a, Fun(P.tab[k])) : k \in DOMAIN P.tab}
    [] S.op = "gset" -> {[WithTop(Adv(Top)) EXCEPT !.g[S.a] = V(S.b)]}
    [] S.op = "gget" -> {Set(S.a, st.g[S.b])}
    [] S.op = "sset" -> {[WithTop(Adv(Top)) EXCEPT !.heap[V(S.a)[2]].cb = Fun(S.c)]}
    [] S.op = "nset" -> IF V(S.a) = Null THEN {[st EXCEPT !.done = TRUE]} ELSE {[WithTop(Adv(Top)) EXCEPT !.heap[V(S.a)[2]].nx = V(S.b)]}
    [] S.op = "nget" -> IF V(S.b) = Null THEN {[st EXCEPT !.done = TRUE]} ELSE {Set(S.a, st.heap[V(S.b)[2]].nx)}
    [] S.op = "mget" -> IF V(S.b) = Null THEN {[st EXCEPT !.done = TRUE]} ELSE {Set(S.a, st.heap[V(S.b)[2]].mb)}
    [] S.op = "br" -> {WithTop(Adv(Top)), WithTop([Top EXCEPT !.pc = S.a])}
    [] S.op = "jmp" -> {WithTop([Top EXCEPT !.pc = S.a])}
    [] S.op = "ret" ->
         IF Len(st.stk) = 1 THEN {[st EXCEPT !.done = TRUE]}
         ELSE LET rv == IF S.a = 0 THEN Null ELSE V(S.a)
                  n == Len(st.stk) - 1
                  c == st.stk[n]
              IN {[st EXCEPT !.stk = Append(SubSeq(st.stk, 1, n - 1), IF Top.res = 0 THEN c ELSE [c EXCEPT !.v[Top.res] = rv])]}

Next == /\ ~st.done
        /\ \E s \in Steps : st' = [s EXCEPT !.ch = @ + IF S.op \in {"br", "ftab"} THEN 1 ELSE 0]
        /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars
\* executions are explored up to a number of steps and of nondeterministic choices (ch)
Bound == TLCGet("level") < MaxLevel /\ st.ch <= 11

Reported(alg, s) == Range(Impl[idx][alg][s])
Sound == (~st.done /\ IsCall /\ Callee # 0) => \A alg \in DOMAIN Impl[idx] : Callee \in Reported(alg, S.site)
Shown == [idx |-> idx, st |-> st,
          missed |-> IF ~st.done /\ IsCall /\ Callee # 0 THEN <<S.site, Callee, {alg \in DOMAIN Impl[idx] : Callee \notin Reported(alg, S.site)}>> ELSE <<>>]

\* direct calls are resolved exactly; virtual calls to overriders in the subtypes of the static type only
SubOverriders(s) == {Callees(P, c, P.sites[s].m) : c \in {c \in DOMAIN P.classes : IsA(P, c, P.sites[s].static)}}
Exact ==
  TLCGet("level") = 1 =>
    \A s \in DOMAIN P.sites :
      /\ P.sites[s].kind = "d" => \A alg \in DOMAIN Impl[idx] : Reported(alg, s) \subseteq {P.sites[s].fn}
      /\ P.sites[s].kind = "v" => \A alg \in DOMAIN Impl[idx] \ {"OTF", "OTFbuild"} : Reported(alg, s) \subseteq SubOverriders(s) \ Range(P.pure)
=============================================================================
