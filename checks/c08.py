"""C08: inter-procedural control-flow graphs and call graphs (ICFG.tla)."""
import json, re, vf, gen_cfg

SIG = "(i32, i32*, i1, i32 (i32)*, i8*)"
CGS = ["NORESOLVE", "CHA", "RTA", "DTA", "OTF"]


def gen(rng):
    ng = rng.randint(1, 3)
    gens = rng.sample(["f", "g", "h", "f.1", "_ZN3Foo3barEv", "rec"], ng)
    wraps = rng.sample(["main", "start", "w1", "w.2"], rng.randint(0, 3))
    leaves = rng.sample(["l1", "l2", "l3"], rng.randint(0, 3))
    fam = rng.choice([True, False])
    aliases = [("al", rng.choice(gens))] if rng.random() < .4 else []

    def args(caller_gen):
        fp = rng.choice(["null"] + ["@" + x for x in leaves] + (["%fp"] if caller_gen else []))
        if caller_gen:
            return f"(i32 1, i32* %y, i1 %c, i32 (i32)* {fp}, i8* %fp8)"
        return f"(i32 1, i32* null, i1 0, i32 (i32)* {fp}, i8* null)"

    def call(inv=False, cg=True):
        while True:
            k = rng.choice(["gen", "gen", "gen", "wrap", "leaf", "ext", "cast", "castg", "fp", "asm", "alias", "intr"])
            if k == "gen":
                t = rng.choice(gens)
                return f"call i32 @\"{t}\"" + args(cg), t
            if k == "wrap" and wraps:
                t = rng.choice(wraps)
                return f"call i32 @\"{t}\"()", t
            if k == "leaf" and leaves:
                t = rng.choice(leaves)
                return f"call i32 @\"{t}\"(i32 1)", t
            if k == "ext":
                return "call void @ext()", "ext"
            if k == "cast":
                t = rng.choice(gens)
                return f"call i32 bitcast (i32 {SIG}* @\"{t}\" to i32 (i32)*)(i32 7)", t
            if k == "castg" and wraps:
                t = rng.choice(wraps)
                return f"call void bitcast (i32 ()* @\"{t}\" to void (i8*)*)(i8* null)", t
            if k == "alias" and aliases:
                return "call i32 @al" + args(cg), aliases[0][1]
            if k == "asm" and not inv:
                return 'call void asm sideeffect "nop", ""()', "!asm"
            if k == "fp" and cg:
                return "call i32 %fp(i32 2)", "!ind"
            if k == "intr" and not inv:
                return "call void @llvm.donothing()", "llvm.donothing"
    funs, txt, md = [], "", ""
    order = gens + wraps + leaves
    rng.shuffle(order)
    for k, n in enumerate(order):
        if n in gens:
            t, m, s = gen_cfg.gen_fun(rng, '"' + n + '"', 20 + 10 * k, dbgp=rng.choice([0, .2, .5]), lazy=False, call=call)
            txt += t
            md += m
        elif n in wraps:
            s, body = [], []
            mainargs = n == "main" and fam and False
            for x in range(rng.randint(0, 4)):
                c, to = call(True, cg=False)
                body.append("  " + (f"%w{x} = " if not c.startswith("call void") else "") + c)
                s.append(dict(dbg=False, call=True, exit="no", to=to, nx=[len(s) + 2]))
            body.append("  ret i32 0")
            s.append(dict(dbg=False, call=False, exit="ret", to="", nx=[]))
            txt += f'define i32 @"{n}"() {{\n' + "\n".join(body) + "\n}\n"
        else:
            if rng.random() < .25:
                txt += f'declare i32 @"{n}"(i32)\n'
                s = []
            else:
                txt += f'define internal i32 @"{n}"(i32 %a) {{\n  ret i32 %a\n}}\n'
                s = [dict(dbg=False, call=False, exit="ret", to="", nx=[])]
        funs.append(dict(name=n, decl=not s, ext=n not in leaves, st=[dict(dbg=q["dbg"], call=q["call"], to=q["to"] if q["to"] != "" or not q["call"] else "!ind", exit=q["exit"], nx=q["nx"]) for q in s]))
    for d in ["ext", "__cxa_guard_acquire", "llvm.donothing", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.pseudoprobe", "llvm.assume", "llvm.lifetime.start.p0i32"]:
        funs.append(dict(name=d, decl=True, ext=True, st=[]))
    if rng.random() < .5 and leaves:
        txt += "@tab = global [%d x i32 (i32)*] [%s]\n" % (len(leaves), ", ".join(f"i32 (i32)* @{x}" for x in leaves))
    for a, t in aliases:
        txt += f'@{a} = alias i32 {SIG}, i32 {SIG}* @"{t}"\n'
    head, small = gen_cfg.DBGMD, rng.random() < .4
    decls = ["declare void @ext()", "declare void @llvm.donothing()", "declare i32 @__cxa_guard_acquire(i64*)"] + [l for l in head.split("\n") if l.startswith("declare")]
    head = "\n".join(l for l in head.split("\n") if not l.startswith("declare"))
    used = lambda n: not small or f"@{n}(" in txt
    dn = lambda l: l[l.index("@") + 1:l.index("(")]
    funs = [f for f in funs if f["name"] not in map(dn, decls) or used(f["name"])]
    ir = "@_ZGVx = internal global i64 0\n" + "\n".join(l for l in decls if used(dn(l))) + "\n" + txt + head + md
    runs = []
    for _ in range(3):
        glob = rng.random() < .35 and bool(wraps)
        if glob:
            ent = rng.sample(wraps, rng.randint(1, len(wraps)))
        else:
            ent = rng.choice([["__ALL__"], ["main"] if rng.random() < .2 else order[:1], rng.sample(order, rng.randint(1, len(order))), [rng.choice(order), "nope"], [rng.choice(order)] * 2])
        runs.append(dict(cg=rng.choice(CGS), entries=ent, globals=glob, s=rng.choice(["Soundy", "Unsound"]), th=rng.random() < .3))
    return dict(ir=ir, funs=funs, runs=runs)


def run(ctx):
    decide(ctx, ctx.q(200, 2000), None, "inter-procedural control-flow graph: ")


def decide(ctx, n, cfg, what):
    exe = vf.harness("icfg")
    progs = [gen(ctx.rng) for _ in range(n)]
    st, o = ctx.run(exe, [ctx.dump("in.json", progs), ctx.path("out.json")], timeout=300)
    if st != "ok":
        bad = [p for p in progs[:300] if ctx.run(exe, [ctx.dump("one.json", [p]), ctx.path("one.out")], timeout=20)[0] != "ok"][:1]
        ctx.violation("building or querying the ICFG " + ("hangs" if st == "timeout" else "crashes"), dict(output=o, program=bad))
        return None
    r = ctx.tlc("ICFG", cfg=cfg, env=dict(ICFG_OBS=ctx.path("out.json")), timeout=ctx.q(300, 850))
    ctx.cov["traces_validated_against_impl"] += sum(len(p["runs"]) for p in progs)
    if r["status"] != "ok":
        det = dict(trace=r["trace"][:3000])
        st = {k: re.findall(r"/\\ %s = (\d+)" % k, r["trace"]) for k in ("p", "r")}
        if all(st.values()):
            p, q = (int(st[k][-1]) for k in ("p", "r"))
            det.update(ir=progs[p - 1]["ir"], run=progs[p - 1]["runs"][q - 1], answers=json.load(open(ctx.path("out.json")))[p - 1]["runs"][q - 1])
        ctx.violation(what + r["what"], det)
    ctx.sample(dict(ir=progs[0]["ir"][:1500], runs=progs[0]["runs"]))
    return json.load(open(ctx.path("out.json")))
