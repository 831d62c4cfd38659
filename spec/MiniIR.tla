------------------------------ MODULE MiniIR ------------------------------
(***************************************************************************)
(* Operational semantics of the fragment of LLVM IR that the client-level  *)
(* properties (call graphs, alias information, constants, taints,          *)
(* uninitialized variables, typestates) are about.  One state is one       *)
(* machine configuration; one step executes one instruction.  Extern       *)
(* functions and branch conditions coming from them are non-deterministic, *)
(* so that the executions are exactly the valid paths of the program.      *)
(*                                                                         *)
(* A program P:  funs   sequence of [np, code, decl, kind, size]           *)
(*               globs  sequence of cell sequences (initial operands)      *)
(*               main   index of the entry function, nd sequence of the    *)
(*               ints extern calls may produce, mode what value tags mean  *)
(* A statement:  [op, a (operands), s (successors), b (block), x, w]       *)
(* A register:   parameters first, then one per statement                  *)
(* A value:      <<kind, a, b, tag>> with kind                             *)
(*   "x" never assigned  "u" undefined  "i" int a  "p" object a, cell b    *)
(*   "f" function a      "n" null                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Range(s) == {s[k] : k \in DOMAIN s}

\* ---- arithmetic at a bit width --------------------------------------------
Pow2(w) == 2 ^ w
Norm(n, w) == IF w >= 32 THEN n   \* generated programs keep wide values small
              ELSE LET m == n % Pow2(w) IN IF m >= Pow2(w - 1) THEN m - Pow2(w) ELSE m
Uns(n, w) == IF w >= 32 THEN n ELSE n % Pow2(w)
Abs(n) == IF n < 0 THEN -n ELSE n
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
RECURSIVE Bit(_, _, _)
Bit(op, a, b) ==   \* non-negative a, b
  IF a = 0 /\ b = 0 THEN 0
  ELSE LET x == a % 2 y == b % 2
           z == CASE op = "and" -> IF x = 1 /\ y = 1 THEN 1 ELSE 0
                  [] op = "or" -> IF x = 1 \/ y = 1 THEN 1 ELSE 0
                  [] op = "xor" -> IF x # y THEN 1 ELSE 0
       IN z + 2 * Bit(op, a \div 2, b \div 2)
\* bit operations on two's complement at 16 bits are enough for the generated ranges
BitOp(op, a, b, w) == Norm(Bit(op, a % 65536, b % 65536), IF w > 16 THEN 16 ELSE w)
Sat(n, lo, hi) == IF n < lo THEN lo ELSE IF n > hi THEN hi ELSE n
Undefd == 99999999
\* (wide values are only followed while they are small)
Arith(op, a, b, w) ==
  CASE w >= 32 /\ (Abs(a) > 20000 \/ Abs(b) > 20000) -> Undefd
    [] op = "add" -> Norm(a + b, w)
    [] op = "sub" -> Norm(a - b, w)
    [] op = "mul" -> Norm(a * b, w)
    [] op = "sdiv" -> IF b = 0 THEN Undefd ELSE Norm(Quot(a, b), w)
    [] op = "srem" -> IF b = 0 THEN Undefd ELSE Norm(a - b * Quot(a, b), w)
    [] op = "udiv" -> IF b = 0 THEN Undefd ELSE Norm(Uns(a, w) \div Uns(b, w), w)
    [] op = "urem" -> IF b = 0 THEN Undefd ELSE Norm(Uns(a, w) % Uns(b, w), w)
    [] op = "shl" -> IF b < 0 \/ b >= w THEN Undefd ELSE Norm(a * Pow2(b), w)
    [] op \in {"and", "or", "xor"} -> BitOp(op, a, b, w)
    [] op = "sadd.sat" -> Sat(a + b, -Pow2(w - 1), Pow2(w - 1) - 1)
    [] op = "ssub.sat" -> Sat(a - b, -Pow2(w - 1), Pow2(w - 1) - 1)
    [] op = "uadd.sat" -> Norm(Sat(Uns(a, w) + Uns(b, w), 0, Pow2(w) - 1), w)
    [] op = "usub.sat" -> Norm(Sat(Uns(a, w) - Uns(b, w), 0, Pow2(w) - 1), w)
Overflows(op, a, b, w) ==
  CASE op = "add" -> a + b # Norm(a + b, w)
    [] op = "sub" -> a - b # Norm(a - b, w)
    [] op = "mul" -> a * b # Norm(a * b, w)
Cmp(op, a, b) == CASE op = "eq" -> a = b [] op = "ne" -> a # b [] op = "slt" -> a < b [] op = "sgt" -> a > b
\* conversions: "trunc"/"sext" renormalise at the target width, "zext" from width x[1]
Conv(op, a, x, w) == IF op = "zext" THEN Norm(Uns(a, x[1]), w) ELSE Norm(a, w)

\* ---- tags -----------------------------------------------------------------
\* "taint": 0/1, joined by data dependence of copies only
\* "lca"  : the term <<c, op, c, op, c, ...>> a value was computed by; <<-1>> if not linear
NoTag(m) == IF m = "lca" THEN <<>> ELSE 0
ConstTag(m, n) == IF m = "lca" THEN <<n>> ELSE 0
Nonlinear == <<-77777>>
OpNum(op) == CASE op = "add" -> 1 [] op = "sub" -> 2 [] op = "mul" -> 3 [] op = "sdiv" -> 4 [] op = "srem" -> 5
               [] op = "and" -> 6 [] op = "or" -> 7 [] op = "xor" -> 8 [] op = "udiv" -> 9 [] op = "urem" -> 10
               [] OTHER -> 11
Lossy(op, a, b, w) ==  \* the analysis may give up on these
  \/ OpNum(op) = 11
  \/ op = "add" /\ a + b # Norm(a + b, w)
  \/ op = "sub" /\ a - b # Norm(a - b, w)
  \/ op = "mul" /\ a * b # Norm(a * b, w)
  \/ op \in {"sdiv", "srem"} /\ b = -1 /\ w < 32 /\ a = -Pow2(w - 1)
BinTag(m, op, o1, o2, v1, v2, w, id) ==
  IF m # "lca" THEN 0
  ELSE IF v1[1] # "i" \/ v2[1] # "i" THEN Nonlinear
  ELSE IF Lossy(op, v1[2], v2[2], w) THEN Nonlinear
  ELSE CASE o1[1] = "c" /\ o2[1] = "c" -> <<0, OpNum(op), o1[2], o2[2]>>
         [] o1[1] # "c" /\ o2[1] = "c" -> IF v1[4] = Nonlinear THEN Nonlinear ELSE v1[4] \o id
         [] o1[1] = "c" /\ o2[1] # "c" -> IF v2[4] = Nonlinear THEN Nonlinear ELSE v2[4] \o id
         [] OTHER -> Nonlinear

U(m) == <<"u", 0, 0, NoTag(m)>>
X(m) == <<"x", 0, 0, NoTag(m)>>
Null(m) == <<"n", 0, 0, NoTag(m)>>

\* ---- configurations -----------------------------------------------------------
Frame(P, f, args) == [f |-> f, pc |-> 1, pb |-> 0,
                      r |-> args \o [k \in 1..Len(P.funs[f].code) |-> X(P.mode)]]
Fun(P, st) == P.funs[Last(st.stk).f]
Stmt(P, st) == Fun(P, st).code[Last(st.stk).pc]

Val(P, fr, o) ==
  CASE o[1] = "r" -> fr.r[o[2]]
    [] o[1] = "c" -> <<"i", o[2], 0, ConstTag(P.mode, o[2])>>
    [] o[1] = "g" -> <<"p", o[2], o[3], NoTag(P.mode)>>
    [] o[1] = "f" -> <<"f", o[2], 0, NoTag(P.mode)>>
    [] o[1] = "0" -> Null(P.mode)
    [] o[1] = "u" -> U(P.mode)

NoFrame == [f |-> 0, pc |-> 0, pb |-> 0, r |-> <<>>]
InitState(P) ==
  LET nop == [r |-> <<>>] IN
  [stk |-> <<Frame(P, P.main, [k \in 1..P.funs[P.main].np |-> U(P.mode)])>>,
   mem |-> [g \in DOMAIN P.globs |-> [s |-> <<0, g>>, h |-> 0,
              c |-> [k \in DOMAIN P.globs[g] |-> Val(P, nop, P.globs[g][k])]]],
   ev |-> <<>>, done |-> FALSE]

Deref(st, v) == /\ v[1] = "p" /\ v[2] \in DOMAIN st.mem /\ v[3] + 1 \in DOMAIN st.mem[v[2]].c
Cell(st, v) == st.mem[v[2]].c[v[3] + 1]
Put(st, v, x) == [st EXCEPT !.mem[v[2]].c[v[3] + 1] = x]

\* the top frame after assigning its result v and going to successor k
Adv(P, st, s, k, v) ==
  LET fr == Last(st.stk) F == P.funs[fr.f]
      nb == F.code[s.s[k]].b
      fr2 == [fr EXCEPT !.r[F.np + fr.pc] = v, !.pc = s.s[k], !.pb = IF s.t THEN s.b ELSE @]
  IN [st EXCEPT !.stk[Len(st.stk)] = fr2]
Skip(P, st, s) == {Adv(P, st, s, 1, X(P.mode))}
Give(P, st, s, v) == {Adv(P, st, s, 1, v)}

NewObj(P, st, n, site) == Append(st.mem, [s |-> site, h |-> 0, c |-> [k \in 1..n |-> U(P.mode)]])

\* file handles: h of the object is 0 no handle, 1 opened, 2 closed, 3 error
HNext(kind, h) == CASE kind = "fclose" -> IF h = 1 THEN 2 ELSE 3
                    [] kind = "fuse" -> IF h = 1 THEN 1 ELSE 3
                    [] OTHER -> h

\* what a phi or select yields (nothing the linear constant analysis follows)
Merged(m, v) == IF m = "lca" THEN [v EXCEPT ![4] = Nonlinear] ELSE v

Taint(v) == [v EXCEPT ![4] = 1]
Untaint(v) == [v EXCEPT ![4] = 0]

CallExtern(P, st, s, g, args) ==
  LET K == P.funs[g].kind  m == P.mode  fr == Last(st.stk)
      ints == {<<"i", n, 0, IF m = "lca" THEN Nonlinear ELSE 0>> : n \in Range(P.nd)}
  IN CASE K = "nondet" -> {Adv(P, st, s, 1, v) : v \in ints}
       [] K = "none"   -> Skip(P, st, s)
       [] K = "sink"   -> Skip(P, st, s)
       [] K = "source" -> {Adv(P, st, s, 1, Taint(v)) : v \in ints}
       [] K = "sourcep" -> IF Deref(st, args[1]) THEN {Adv(P, Put(st, args[1], Taint(v)), s, 1, X(m)) : v \in ints} ELSE {}
       [] K = "scan"   -> IF Deref(st, args[1]) THEN {Adv(P, Put(st, args[1], v), s, 1, X(m)) : v \in ints} ELSE {}
       [] K = "san"    -> IF Deref(st, args[1]) THEN Give(P, Put(st, args[1], Untaint(Cell(st, args[1]))), s, X(m)) ELSE {}
       [] K = "cfg"    ->   \* sources and sanitizers of a taint configuration
            LET src == Range(P.funs[g].src)  ptrs == src \cup Range(P.funs[g].san) IN
            IF \E k \in ptrs : ~Deref(st, args[k]) THEN {}
            ELSE {Adv(P, [st EXCEPT !.mem = [o \in DOMAIN @ |-> [@[o] EXCEPT !.c = [c \in DOMAIN @ |->
                            IF \E k \in src : args[k][2] = o /\ args[k][3] + 1 = c THEN Taint(v)
                            ELSE IF \E k \in ptrs : args[k][2] = o /\ args[k][3] + 1 = c THEN Untaint(@[c]) ELSE @[c]]]]],
                      s, 1, IF P.funs[g].rsrc THEN Taint(v) ELSE v) : v \in {<<"i", P.nd[1], 0, 0>>}}
       [] K = "lib"    ->   \* library functions: copy a cell (or append to it), return a pointer, a copy or a number
            LET L == P.funs[g].lib
                need == (IF L.cp = <<>> THEN {} ELSE Range(L.cp)) \cup (IF L.ret \in {"cell", "dup"} THEN {L.k} ELSE {}) IN
            IF \E k \in need : ~Deref(st, args[k]) THEN {}
            ELSE LET st2 == IF L.cp = <<>> THEN st
                            ELSE LET v == Cell(st, args[L.cp[1]]) w == Cell(st, args[L.cp[2]])
                                 IN Put(st, args[L.cp[2]], IF L.app /\ w[4] = 1 THEN Taint(v) ELSE v)
                     n == <<"i", P.nd[1], 0, 0>>
                 IN (CASE L.ret = "arg" -> Give(P, st2, s, args[L.k])
                      [] L.ret = "val" -> Give(P, st2, s, [n EXCEPT ![4] = args[L.k][4]])
                      [] L.ret = "cell" -> Give(P, st2, s, [n EXCEPT ![4] = Cell(st, args[L.k])[4]])
                      [] L.ret = "dup" -> Give(P, Put([st2 EXCEPT !.mem = NewObj(P, st2, 1, <<fr.f, fr.pc>>)], <<"p", Len(st2.mem) + 1, 0, 0>>, Cell(st, args[L.k])),
                                               s, <<"p", Len(st2.mem) + 1, 0, NoTag(m)>>)
                      [] L.ret = "no" -> Give(P, st2, s, n))
       [] K = "sanv"   -> Give(P, st, s, Untaint(args[1]))
       [] K = "malloc" -> Give(P, [st EXCEPT !.mem = NewObj(P, st, s.x[1], <<fr.f, fr.pc>>)], s, <<"p", Len(st.mem) + 1, 0, NoTag(m)>>)
       [] K = "fopen"  -> Give(P, [st EXCEPT !.mem = [NewObj(P, st, 1, <<fr.f, fr.pc>>) EXCEPT ![Len(st.mem) + 1].h = 1]],
                               s, <<"p", Len(st.mem) + 1, 0, NoTag(m)>>)
       [] K \in {"fclose", "fuse"} ->
            LET v == args[P.funs[g].size] IN
            IF v[1] = "p" THEN Skip(P, [st EXCEPT !.mem[v[2]].h = HNext(K, @)], s) ELSE Skip(P, st, s)

\* the function a call statement calls in st (0 if none: undefined behaviour)
Callee(P, st) ==
  LET v == Val(P, Last(st.stk), Stmt(P, st).a[1]) IN IF v[1] = "f" THEN v[2] ELSE 0
Args(P, st) == LET s == Stmt(P, st) fr == Last(st.stk)
               IN [k \in 1..(Len(s.a) - 1) |-> Val(P, fr, s.a[k + 1])]

\* all successor configurations
Steps(P, st) ==
  IF st.done THEN {}
  ELSE
  LET fr == Last(st.stk)  F == P.funs[fr.f]  s == F.code[fr.pc]  m == P.mode
      A(k) == Val(P, fr, s.a[k])
  IN CASE s.op = "alloca" -> Give(P, [st EXCEPT !.mem = NewObj(P, st, s.x[1], <<fr.f, fr.pc>>)], s, <<"p", Len(st.mem) + 1, 0, NoTag(m)>>)
       [] s.op = "store" -> IF Deref(st, A(2)) THEN Skip(P, Put(st, A(2), A(1)), s) ELSE {}
       [] s.op = "load" -> IF Deref(st, A(1)) THEN Give(P, st, s, IF Len(st.mem[A(1)[2]].c) > 1 THEN Merged(m, Cell(st, A(1))) ELSE Cell(st, A(1))) ELSE {}
       [] s.op = "gep" ->   \* x = <<constant offset, scale>>, a[2] optional index
            IF A(1)[1] # "p" THEN {}
            ELSE IF Len(s.a) = 1 THEN Give(P, st, s, [A(1) EXCEPT ![3] = @ + s.x[1]])
            ELSE IF A(2)[1] # "i" THEN {}
            ELSE Give(P, st, s, [A(1) EXCEPT ![3] = @ + s.x[1] + s.x[2] * A(2)[2]])
       [] s.op = "bin" ->
            LET v1 == A(1) v2 == A(2) IN
            IF v1[1] = "i" /\ v2[1] = "i"
            THEN LET r == Arith(s.o, v1[2], v2[2], s.w) IN
                 IF r = Undefd THEN {}
                 ELSE Give(P, st, s, <<"i", r, 0, BinTag(m, s.o, s.a[1], s.a[2], v1, v2, s.w, <<fr.f, fr.pc>>)>>)
            ELSE Give(P, st, s, U(m))
       [] s.op = "ovf" ->   \* value and overflow flag of an overflow intrinsic as one value <<"i", value, flag, tag>>
            LET v1 == A(1) v2 == A(2) t == BinTag(m, s.o, s.a[1], s.a[2], v1, v2, s.w, <<fr.f, fr.pc>>) IN
            IF v1[1] = "i" /\ v2[1] = "i"
            THEN Give(P, st, s, <<"i", Arith(s.o, v1[2], v2[2], s.w), IF Overflows(s.o, v1[2], v2[2], s.w) THEN -1 ELSE 0, t>>)
            ELSE Give(P, st, s, U(m))
       [] s.op = "extract" -> LET v == A(1) IN
            IF v[1] # "i" THEN Give(P, st, s, v)
            ELSE IF s.x[1] = 0 THEN Give(P, st, s, [v EXCEPT ![3] = 0])
            ELSE Give(P, st, s, <<"i", v[3], 0, IF m = "lca" THEN Nonlinear ELSE v[4]>>)
       [] s.op = "icmp" ->
            LET v1 == A(1) v2 == A(2) t == IF m = "lca" THEN Nonlinear ELSE 0 IN
            IF v1[1] = "i" /\ v2[1] = "i" THEN Give(P, st, s, <<"i", IF Cmp(s.o, v1[2], v2[2]) THEN -1 ELSE 0, 0, t>>)
            ELSE IF v1[1] \in {"u", "x"} \/ v2[1] \in {"u", "x"} THEN Give(P, st, s, U(m))
            ELSE Give(P, st, s, <<"i", IF (s.o = "eq") = (<<v1[1], v1[2], v1[3]>> = <<v2[1], v2[2], v2[3]>>) THEN -1 ELSE 0, 0, t>>)
       [] s.op = "conv" -> LET v == A(1) IN
            IF v[1] = "i" THEN Give(P, st, s, [v EXCEPT ![2] = Conv(s.o, v[2], s.x, s.w), ![4] = IF m = "lca" THEN Nonlinear ELSE @])
            ELSE Give(P, st, s, v)
       [] s.op = "copy" -> Give(P, st, s, A(1))     \* bitcast, freeze
       [] s.op = "select" -> LET c == A(1) IN
            IF c[1] = "i" THEN Give(P, st, s, Merged(m, IF c[2] # 0 THEN A(2) ELSE A(3)))
            ELSE {Adv(P, st, s, 1, Merged(m, A(2))), Adv(P, st, s, 1, Merged(m, A(3)))}
       [] s.op = "phi" -> LET k == CHOOSE k \in DOMAIN s.x : s.x[k] = fr.pb IN Give(P, st, s, Merged(m, A(k)))
       [] s.op = "br" -> Skip(P, st, s)
       [] s.op = "cbr" -> LET c == A(1) IN
            IF c[1] = "i" THEN {Adv(P, st, s, IF c[2] # 0 THEN 1 ELSE 2, X(m))}
            ELSE {Adv(P, st, s, 1, X(m)), Adv(P, st, s, 2, X(m))}
       [] s.op = "switch" -> LET c == A(1) IN   \* x = case values; the last successor is the default
            IF c[1] = "i" THEN LET K == {k \in DOMAIN s.x : s.x[k] = c[2]}
                               IN {Adv(P, st, s, IF K = {} THEN Len(s.s) ELSE CHOOSE k \in K : TRUE, X(m))}
            ELSE {Adv(P, st, s, k, X(m)) : k \in DOMAIN s.s}
       [] s.op = "nop" -> Skip(P, st, s)
       [] s.op = "call" ->
            LET g == Callee(P, st) IN
            IF g = 0 THEN {}
            ELSE IF P.funs[g].decl THEN CallExtern(P, st, s, g, Args(P, st))
            ELSE IF P.funs[g].np # Len(Args(P, st)) THEN {}
            ELSE {[st EXCEPT !.stk = Append(@, Frame(P, g, Args(P, st)))]}
       [] s.op = "ret" ->
            IF Len(st.stk) = 1 THEN {[st EXCEPT !.done = TRUE]}
            ELSE LET v == IF Len(s.a) = 0 THEN X(m) ELSE A(1)
                     st2 == [st EXCEPT !.stk = Front(@)]
                     c == Stmt(P, st2)
                 IN {Adv(P, st2, c, 1, v)}
       [] s.op = "unreachable" -> {}
==========================================================================
