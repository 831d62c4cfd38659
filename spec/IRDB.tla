-------------------------------- MODULE IRDB --------------------------------
(* The project database (C20).  State: the module's contents (globals and      *)
(* functions with their statements, in order) and the identifiers given out so *)
(* far.  Actions: build the database, create a function in the module, tell    *)
(* the database about it (functions may be created long before).  In every     *)
(* state each recorded answer of the real database must be the one the state   *)
(* determines; identifiers may be chosen freely when a value is registered     *)
(* but then stay.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Progs == JsonDeserialize(IOEnv.IRDB_OBS)
Rng(s) == {s[k] : k \in 1..Len(s)}
VARIABLES p, r, i, globs, mod, funs, ids
vars == <<p, r, i, globs, mod, funs, ids>>
\* mod: the functions of the module; funs: those the database knows
\* ids: value -> identifier for globals and statements
P == Progs[p]
Snap(k) == P.runs[r].snaps[k + 1]
Now == Snap(i)
Pre == P.runs[r].how # "modulenopre"
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Insts(fs) == Flat([k \in 1..Len(fs) |-> fs[k].insts])
Args(fs) == Flat([k \in 1..Len(fs) |-> fs[k].args])
Names(s) == [k \in 1..Len(s) |-> s[k].name]
\* the identifiers of the values vs as recorded in snapshot k
IdsOf(k, vs) == [v \in vs |-> CHOOSE x \in 0..(Len(Snap(k).vbyid) - 1) : Snap(k).vbyid[x + 1] = v]
Registered(k, vs) == \A v \in vs : \E x \in 0..(Len(Snap(k).vbyid) - 1) : Snap(k).vbyid[x + 1] = v
Init == /\ p \in 1..Len(Progs) /\ r \in 1..Len(Progs[p].runs) /\ i = 0
        /\ globs = P.mod.globals /\ funs = P.mod.funs /\ mod = funs
        /\ ids = LET vs == Rng(Names(globs)) \cup Rng(Insts(funs)) IN IF Registered(0, vs) THEN IdsOf(0, vs) ELSE [v \in {} |-> 0]
Fun(k) == P.inserts[k].fun
Has(k) == \E x \in Rng(mod) : x.name = Fun(k).name
\* the functions that are created early come into the module before any insertion
Create == /\ i = 0 /\ Len(mod) < Len(funs) + Len(P.created)
          /\ mod' = Append(mod, Fun(P.created[Len(mod) - Len(funs) + 1] + 1))
          /\ UNCHANGED <<p, r, i, globs, funs, ids>>
Insert == /\ i < Len(P.inserts) /\ i' = i + 1
          /\ i = 0 => Len(mod) = Len(funs) + Len(P.created)
          /\ funs' = Append(funs, Fun(i + 1))
          /\ mod' = IF Has(i + 1) THEN mod ELSE Append(mod, Fun(i + 1))
          /\ LET vs == Rng(Fun(i + 1).insts) IN
             ids' = ids @@ (IF Registered(i + 1, vs) THEN IdsOf(i + 1, vs) ELSE [v \in {} |-> 0])
          /\ UNCHANGED <<p, r, globs>>
Next == Create \/ Insert
Spec == Init /\ [][Next]_vars

\* functions were created, but nothing has been recorded since
Creating == i = 0 /\ mod # P.mod.funs
Stmts == Rng(Insts(funs))
Globals == Rng(Names(globs))
Vals == Stmts \cup Globals
ByName(s, n) == {x \in Rng(s) : x.name = n}
OrNone(s) == IF s = {} THEN "none" ELSE (CHOOSE x \in s : TRUE).name

Complete == DOMAIN ids = Vals
Unique == \A a, b \in Vals : ids[a] = ids[b] => a = b
Counts == Now.ng = Len(globs) /\ (~Creating => Now.nf = Len(mod)) /\ Now.ni = Cardinality(Stmts)
Iterate == Len(Now.all) = Cardinality(Stmts) /\ Rng(Now.all) = Stmts
IdOfInst == DOMAIN Now.id = Stmts /\ \A s \in Stmts : Now.id[s] = ids[s]
ById == \A k \in 1..Len(Now.byid) :
          LET here == {v \in Vals : ids[v] = k - 1} IN
          /\ Now.vbyid[k] = (IF here = {} THEN "none" ELSE CHOOSE v \in here : TRUE)
          /\ Now.byid[k] = (IF here \cap Stmts = {} THEN "none" ELSE CHOOSE v \in here : TRUE)
\* numbering is a function of the program: all ways to build agree
Stable == \A q \in 1..Len(P.runs) : P.runs[q].snaps[i + 1].id = Now.id /\ P.runs[q].snaps[i + 1].all = Now.all
MetaIds == Pre => /\ \A v \in Vals : Now.meta[v] = ToString(ids[v]) /\ Now.back[v] = v
ArgIds == \A a \in Rng(Args(funs)) : Now.back[a] = a
NoMeta == ~Pre => \A v \in Vals : Now.meta[v] = "-1" /\ Now.back[v] = "none"
Ordered == Now.badorder = 0
Emitted == Now.emitted = Cardinality(Vals)
FunIter == Creating \/ (Len(Now.funs) = Len(mod) /\ Rng(Now.funs) = Rng(Names(mod)))
Lookup == Creating \/ \A n \in Rng(P.names) :
   /\ Now.get[n] = OrNone(ByName(mod, n))
   /\ Now.def[n] = OrNone({x \in ByName(mod, n) : ~x.decl})
   /\ Now.has[n] = (ByName(mod, n) # {})
   /\ Now.mut[n]
LookupLocal == \A n \in Rng(P.names) : Now.gvdef[n] = OrNone({x \in ByName(globs, n) : ~x.decl})
Entry(k) == LET e == P.ent[k] IN
  IF e = <<"__ALL__">> THEN {x.name : x \in {y \in Rng(mod) : ~y.decl /\ (y.ext \/ y.name = "main")}}
  ELSE {n \in Rng(e) : \E x \in ByName(mod, n) : ~x.decl}
Entries == Creating \/ \A k \in 1..Len(P.ent) : \A h \in 1..2 : Rng(Now.entries[k][h]) = Entry(k) /\ (Cardinality(Rng(P.ent[k])) = Len(P.ent[k]) => Len(Now.entries[k][h]) = Cardinality(Entry(k)))
=============================================================================
