"""Random LLVM functions with arbitrary control flow, as IR text plus the explicit
control-flow graph used by spec/Cfg.tla. Statement ids are 1-based positions."""

DBGMD = """declare void @llvm.pseudoprobe(i64, i64, i32, i64)
declare void @llvm.assume(i1)
declare void @llvm.lifetime.start.p0i32(i64, i32*)
declare void @llvm.dbg.value(metadata, metadata, metadata)
declare void @llvm.dbg.declare(metadata, metadata, metadata)
declare void @llvm.dbg.label(metadata)
!llvm.dbg.cu = !{!0}
!llvm.module.flags = !{!2, !3}
!0 = distinct !DICompileUnit(language: DW_LANG_C99, file: !1, producer: "x", isOptimized: false, runtimeVersion: 0, emissionKind: FullDebug)
!1 = !DIFile(filename: "a.c", directory: "/")
!2 = !{i32 2, !"Dwarf Version", i32 4}
!3 = !{i32 2, !"Debug Info Version", i32 3}
!4 = !DISubroutineType(types: !7)
!7 = !{!8}
!8 = !DIBasicType(name: "int", size: 32, encoding: DW_ATE_signed)
"""

# well-formed special member names and confusable ordinary ones: (name, kind)
NAMES = [("_ZN3FooC1Ev", "ctor"), ("_ZN3FooC2Ei", "ctor"), ("_ZN3FooD0Ev", "dtor"), ("_ZN3FooD2Ev", "dtor"), ("_ZN1AaSERKS_", "copy"),
         ("_ZN1AaSEOS_", "move"), ("_ZN2ns3BarC1ERKS0_", "ctor"), ("_Z5plainv", "none"), ("main2", "none"),
         ("_ZN2C13fooEv", "none"), ("_ZN5C1FooC2Ev", "ctor"), ("_ZN2ns2C13fooEv", "none"), ("_ZN2ns2D23barEi", "none"), ("_ZN2ns2C1C2Ev", "ctor"),
         ("_ZN2ns5outer2C1D1Ev", "dtor"), ("_ZN12LongNameC1ab1fEv", "none"), ("_ZN12LongNameC1abC1ERKS_", "ctor"), ("_ZN1AC1ERKS_", "ctor"), ("_ZN1AC2EOS_", "ctor"), ("_ZN1AD0Ev", "dtor"), ("_Z3D1av", "none"), ("_Z1fN2C1E", "any")]
PREFIX = ["C1", "C2foo", "D0", "D1x", "aSERKS_", "C3"]


def gen_fun(rng, name, mdbase, dbgp=0.35, lazy=True, call=None):
    nb = rng.choice([1, 1, 2, 3, 4, 5, 6])
    L, stmts, first = [], [], {}
    fd = f"!{mdbase}"
    dl = f", !dbg !{mdbase+1}"
    lab = lambda i: "entry" if i == 0 else f"b{i}"
    cnt = [0]

    def v():
        cnt[0] += 1
        return f"%t{cnt[0]}"

    def emit(txt, **k):
        d = dict(dbg=False, call=False, exit=None, fl=False, fs=False, to=None, br=0, raw=[], tg=[], fall=[])
        d.update(k)
        stmts.append(d)
        L.append("  " + txt)
    # landing blocks are separate: blocks nb.. are reserved for unwind
    blocks = list(range(nb))
    lps = []   # landing pad blocks
    terms = []

    def dbg():
        if rng.random() < dbgp:
            k = rng.choice(["value", "declare", "label"])
            if k == "value":
                emit(f"call void @llvm.dbg.value(metadata i32 %x, metadata !{mdbase+2}, metadata !DIExpression()){dl}", dbg=True, call=True, to="llvm.dbg.value")
            elif k == "declare":
                emit(f"call void @llvm.dbg.declare(metadata i32* %y, metadata !{mdbase+2}, metadata !DIExpression()){dl}", dbg=True, call=True, to="llvm.dbg.declare")
            else:
                emit(f"call void @llvm.dbg.label(metadata !{mdbase+3}){dl}", dbg=True, call=True, to="llvm.dbg.label")

    def attr():
        return rng.choice([""] * 6 + [" nounwind", " noreturn", " readnone", " returns_twice"])

    def body(k):
        for _ in range(k):
            dbg()
            r = rng.random()
            if r < .2:
                emit(f"{v()} = add i32 %x, 1")
            elif r < .35:
                emit(f"{v()} = load i32, i32* %y")
            elif r < .5:
                g = v()
                emit(f"{g} = getelementptr i32, i32* %y, i64 1")
                if rng.random() < .5:
                    emit(f"{v()} = load i32, i32* {g}", fl=True)
                else:
                    emit(f"store i32 3, i32* {g}", fs=True)
            elif r < .6:
                emit("store i32 4, i32* %y")
            elif r < .66:
                t = rng.choice(["call void @llvm.pseudoprobe(i64 1, i64 1, i32 0, i64 -1)", "call void @llvm.assume(i1 %c)",
                                "call void @llvm.lifetime.start.p0i32(i64 4, i32* %y)"])
                emit(t, call=True, to=t[t.index("@") + 1:t.index("(")])
            elif call and r < .9:
                txt, d = call()
                emit((f"{v()} = " if not txt.startswith("call void") else "") + txt + attr() + dl, call=True, to=d)
            elif r < .8:
                emit(f"call void @ext(){attr()}{dl}", call=True, to="ext")
            elif r < .9:
                emit(f"{v()} = call i32 %fp(i32 2){dl}", call=True)
            else:
                emit(f"{v()} = alloca i32")
        dbg()

    def target():
        return rng.randint(1, nb - 1) if nb > 1 else None
    i = 0
    order = list(range(nb))
    while order:
        b = order.pop(0)
        L.append(lab(b) + ":")
        first[lab(b)] = len(stmts) + 1
        body(rng.randint(0, 2))
        opts = ["ret", "unreach"] if nb == 1 else ["ret", "br", "br", "cond", "cond", "cond", "switch", "indirect", "invoke", "callbr", "lazyload", "lazyacq", "unreach"]
        if b == 0 and nb > 1:
            opts = ["br", "cond", "cond", "switch", "invoke", "callbr", "lazyload", "lazyacq"]
        t = rng.choice(opts)
        if t.startswith("lazy") and not lazy:
            t = "cond"
        T1, T2 = target(), target()
        if t == "ret":
            emit("ret i32 %x", exit="ret")
        elif t == "unreach":
            emit("unreachable")
        elif t == "br":
            emit(f"br label %{lab(T1)}", br=1, raw=[lab(T1)], tg=[lab(T1)], fall=[lab(T1)])
        elif t == "cond":
            emit(f"br i1 %c, label %{lab(T1)}, label %{lab(T2)}", br=2, raw=[lab(T1), lab(T2)], tg=[lab(T1), lab(T2)], fall=[lab(T2)])
        elif t == "switch":
            ts = [target() for _ in range(rng.randint(0, 3))]
            emit(f"switch i32 %x, label %{lab(T1)} [ " + " ".join(f"i32 {k}, label %{lab(q)}" for k, q in enumerate(ts)) + " ]",
                 raw=[lab(T1)] + [lab(q) for q in ts], tg=[lab(T1)] + [lab(q) for q in ts])
        elif t == "indirect":
            ts = [target() for _ in range(rng.randint(1, 3))]
            emit("indirectbr i8* %fp8, [" + ", ".join(f"label %{lab(q)}" for q in ts) + "]", raw=[lab(q) for q in ts], tg=[lab(q) for q in ts])
        elif t == "callbr":
            ts = sorted({target() for _ in range(rng.randint(1, 2))} - {T1})
            emit('callbr void asm sideeffect "", "' + ",".join("X" for _ in ts) + '"(' + ", ".join(f"i8* blockaddress(@{name}, %{lab(q)})" for q in ts) + f") to label %{lab(T1)} [" + ", ".join(f"label %{lab(q)}" for q in ts) + f"]{dl}",
                 call=True, to="!asm", raw=[lab(T1)] + [lab(q) for q in ts], tg=[lab(T1)] + [lab(q) for q in ts])
        elif t == "invoke":
            lp = f"lp{len(lps)}"
            lps.append(lp)
            txt, d = ("call void @ext()", "ext")
            if call and rng.random() < .7:
                txt, d = call(True)
            emit((f"{v()} = " if not txt.startswith("call void") else "") + "invoke" + txt[4:] + rng.choice(["", "", " nounwind", " noreturn"]) + f" to label %{lab(T1)} unwind label %{lp}{dl}", call=True, to=d, raw=[lab(T1), lp], tg=[lab(T1), lp])
        elif t in ("lazyload", "lazyacq"):
            eq = rng.random() < .5
            a, c = v(), v()
            if t == "lazyload":
                emit(f"{a} = load atomic i8, i8* bitcast (i64* @_ZGVx to i8*) acquire, align 8")
                emit(f"{c} = icmp {'eq' if eq else 'ne'} i8 {a}, 0")
                init0 = eq
            else:
                emit(f"{a} = call i32 @__cxa_guard_acquire(i64* @_ZGVx){dl}", call=True, to="__cxa_guard_acquire")
                emit(f"{c} = icmp {'eq' if eq else 'ne'} i32 {a}, 0")
                init0 = not eq
            emit(f"br i1 {c}, label %{lab(T1)}, label %{lab(T2)}", br=2, raw=[lab(T1 if init0 else T2)], tg=[lab(T1), lab(T2)], fall=[lab(T2)])
    for lp in lps:
        L.append(lp + ":")
        first[lp] = len(stmts) + 1
        a = v()
        emit(f"{a} = landingpad {{ i8*, i32 }} cleanup")
        body(rng.randint(0, 1))
        if nb > 1 and rng.random() < .4:
            T1 = target()
            emit(f"br label %{lab(T1)}", br=1, raw=[lab(T1)], tg=[lab(T1)], fall=[lab(T1)])
        else:
            emit(f"resume {{ i8*, i32 }} {a}", exit="resume")
    for n, s in enumerate(stmts, 1):
        if s["raw"] or s["tg"]:
            s["nx"] = sorted({first[x] for x in s["raw"]})
            s["bt"] = sorted({first[x] for x in s["tg"]})
            s["fall"] = [first[x] for x in s["fall"]]
        else:
            end = s["exit"] or L_is_unreach(L, stmts, n)
            s["nx"] = [] if end else [n + 1]
            s["bt"] = []
        for k in ("raw", "tg"):
            del s[k]
        s["exit"] = s["exit"] or "no"
        s["to"] = s["to"] or ""
    # a landing pad must be the first non-phi statement: dbg before it is not generated
    txt = (f"define i32 @{name}(i32 %x, i32* %y, i1 %c, i32 (i32)* %fp, i8* %fp8) personality i8* null !dbg {fd} {{\n" + "\n".join(L) + "\n}\n")
    md = (f"{fd} = distinct !DISubprogram(name: \"f\", scope: !1, file: !1, line: 1, type: !4, unit: !0, spFlags: DISPFlagDefinition)\n"
          f"!{mdbase+1} = !DILocation(line: 1, column: 1, scope: {fd})\n"
          f"!{mdbase+2} = !DILocalVariable(name: \"x\", scope: {fd}, file: !1, line: 1, type: !8)\n"
          f"!{mdbase+3} = !DILabel(scope: {fd}, name: \"l\", file: !1, line: 1)\n")
    return txt, md, stmts


def L_is_unreach(L, stmts, n):
    body = [l for l in L if l.startswith("  ")]
    return body[n - 1].strip() == "unreachable"


def gen(rng, lazy=True):
    nf = rng.randint(1, 3)
    names = rng.sample(NAMES + [(p, "any") for p in PREFIX], nf)
    txt, md, funs = "", "", []
    for k, (nm, kind) in enumerate(names):
        t, m, s = gen_fun(rng, nm, 20 + 10 * k, dbgp=rng.choice([0, .2, .5, .9]), lazy=lazy)
        txt += t
        md += m
        funs.append(dict(name=nm, kind=kind, st=s))
    ir = "@_ZGVx = internal global i64 0\ndeclare void @ext()\ndeclare i32 @__cxa_guard_acquire(i64*)\n" + txt + DBGMD + md
    return dict(ir=ir, funs=funs)
