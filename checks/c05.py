"""C05: flow-function building blocks, LLVM fact mappers, flow/edge function cache, seeds (FlowFn.tla)."""
import json, re, vf

K = 5
NEW = ["id", "lambda", "gen", "genif", "genmany", "kill", "killif", "killmany", "killall", "genkill", "genmanykill", "transfer", "union", "union", "union", "unionc"]
LEG = ["zeroed", "zeroed", "Compose", "Compose", "compose", "Union", "Id", "Gen", "GenIf", "GenAll", "Kill", "KillIf", "KillMultiple", "KillAll", "GenKill", "GenAllKill", "Transfer"]


def dag(rng, t):
    ty = ["int", "str", "uset"][t % 3]
    nodes = []
    for i in range(rng.randint(6, 16)):
        k = rng.choice(NEW if ty == "uset" else NEW + LEG)
        if k in ("union", "zeroed") and not nodes:
            k = "lambda"
        n = dict(k=k, a=rng.randrange(K), b=rng.randrange(K), s=sorted(rng.sample(range(K), rng.randint(0, 4))))
        if k == "lambda":
            n["rel"] = [sorted(rng.sample(range(K), rng.randint(0, 3))) for _ in range(K)]
        if k in ("union", "zeroed"):
            n["f"], n["g"] = rng.randint(1, len(nodes)), rng.randint(1, len(nodes))
        if k in ("Compose", "compose", "Union"):
            n["fs"] = [rng.randint(1, len(nodes)) for _ in range(rng.randint(0, 3))] if nodes else []
        nodes.append(n)
    return dict(t=ty, nodes=nodes)


def cache(rng, t):
    ops = []
    for _ in range(rng.randint(20, 60)):
        hi = rng.choice([2, 6, 9])
        r = lambda: rng.randint(1, hi)
        ops.append(dict(flow=rng.random() < .4, k=rng.choice([1, 1, 1, 2, 3, 4, 4, 5]), a=r(), c=r(), e=r(), f=r(), s=r(), t=r()))
        if rng.random() < .3:
            ops.append(dict(rng.choice(ops), flow=rng.random() < .5))
    efs = [[rng.choice([0, 0, 1, 2, 4])] + [rng.choice([1, 2, 4, 7, 0]) for _ in range(3)] for _ in range(rng.choice([1, 3, 6, 11]))]
    return dict(llvm=t % 2 == 1, autozero=rng.random() < .6, efs=efs, ops=ops)


VA = "%struct.__va_list_tag"


def mapper(rng):
    npar = rng.randint(0, 3)
    vararg = rng.random() < .3
    decl = rng.random() < .08
    sret = npar > 0 and rng.random() < .2
    ret = rng.choice(["ptr", "ptr", "param", "const", "void", "unreach"])
    if sret:
        ret = rng.choice(["void", "void", "unreach"])
    if ret == "param" and npar == 0:
        ret = "ptr"
    nargs = npar + (rng.randint(0, 2) if vararg else 0)
    # every value has type i32*
    pool = ["%a", "%b", "%c", "@g1", "@g2", "null", "getelementptr inbounds (%st, %st* @gs, i64 0, i32 1)", "%q", "%r0"]
    args = [rng.choice(pool) for _ in range(nargs)]
    if sret:
        args[0] = rng.choice(["%a", "%b"])
    ps = ", ".join("i32* " + ("sret(i32) " if sret and i == 0 else "") + f"%p{i}" for i in range(npar)) + (("" if npar == 0 else ", ") + "..." if vararg else "")
    rt = "void" if ret in ("void", "unreach") else "i32*"
    ir = [f"{VA} = type {{ i32, i32, i8*, i8* }}", "%st = type { i32, i32 }", "@g1 = global i32 0", "@g2 = global i32 1", "@gs = global %st zeroinitializer"]
    if decl:
        ir.append(f"declare {rt} @f({', '.join('i32*' for _ in range(npar)) + ((', ' if npar else '') + '...' if vararg else '')})")
    else:
        ir.append(f"define {rt} @f({ps}) {{")
        if vararg and rng.random() < .8:
            ir.append(f"  %va = alloca [1 x {VA}], align 16")
        if rng.random() < .3:
            ir.append("  %other = alloca [2 x i32]")
        ir.append("  %l = alloca i32")
        ir.append("  %m = getelementptr i32, i32* %l, i64 0")
        if rng.random() < .3 and npar:
            ir.append(f"  store i32 7, i32* %p{rng.randrange(npar)}")
        rv = {"ptr": rng.choice(["%l", "%m"]), "param": f"%p{rng.randrange(npar) if npar else 0}", "const": rng.choice(["@g1", "null"])}.get(ret)
        ir.append("  unreachable" if ret == "unreach" else "  ret void" if ret == "void" else f"  ret i32* {rv}")
        ir.append("}")
    ir.append("define i32* @main(i32* %r0, i32** %pp) {")
    for v in "abc":
        ir.append(f"  %{v} = alloca i32")
    ir.append("  %s = alloca %st\n  %slot = alloca i32*\n  %q = getelementptr %st, %st* %s, i64 0, i32 1\n  %z = getelementptr %st, %st* %s, i64 0, i32 0")
    ir.append("  %bc = bitcast i32** %slot to i8**\n  %bc2 = bitcast i8** %bc to i32**")
    fty = (", ".join("i32*" for _ in range(npar)) + ((", " if npar else "") + "..." if vararg else ""))
    al = ", ".join("i32* " + ("sret(i32) " if sret and i == 0 else "") + a for i, a in enumerate(args))
    ir.append(("  " if rt == "void" else "  %cs = ") + f"call {rt} ({fty}) @f({al})")
    if rng.random() < .6:
        sp = rng.choice(["i32** %slot", "i32** %slot", "i32** %bc2", "i32** %pp"])
        ir.append(f"  store i32* {rng.choice(['%a', '%q', '@g1', '%r0', 'null'])}, {sp}")
    else:
        ir.append("  %k = load i32, i32* %a")
        ir.append(f"  store i32 {rng.choice(['%k', '5'])}, i32* {rng.choice(['%b', '%z', '%q', '@g1'])}")
    ir.append("  ret i32* %a\n}")
    qs = []
    for k in ["along", "callee", "caller", "store"]:
        for _ in range(4):
            qs.append(dict(k=k, salt=rng.randrange(12), **{"def": rng.random() < .35, "pg": rng.random() < .6, "pz": rng.random() < .6, "drop": rng.choice([0, 0, 0, rng.randint(1, 12)])}))
    return dict(ir="\n".join(ir) + "\n", queries=qs)


def run(ctx):
    rng = ctx.rng
    exe = vf.harness("flowfn")
    inst = dict(dags=[dag(rng, t) for t in range(ctx.q(1500, 8000))], cache=[cache(rng, t) for t in range(ctx.q(300, 1500))],
                maps=[mapper(rng) for _ in range(ctx.q(400, 2500))],
                seeds=[[[rng.randrange(4), rng.randrange(3), rng.randrange(4)] for _ in range(rng.randint(1, 12))] for _ in range(ctx.q(60, 300))])
    st, o = ctx.run(exe, [ctx.dump("in.json", inst), ctx.path("out.json")], timeout=300)
    if st != "ok":
        ctx.violation("evaluating flow functions " + ("hangs" if st == "timeout" else "crashes"), dict(output=o))
        return
    out = json.load(open(ctx.path("out.json")))
    r = ctx.tlc("FlowFn", env=dict(FF_INST=ctx.path("out.json")), timeout=ctx.q(300, 800))
    ctx.cov["traces_validated_against_impl"] += sum(len(out[k]) for k in out)
    if r["status"] != "ok":
        m = re.findall(r'/\\ i = (\d+)\s+/\\ j = (\d+)\s+/\\ part = "(\w+)"', r["trace"])
        det = dict(trace=r["trace"][:3000])
        if m:
            i, j, p = int(m[-1][0]) - 1, int(m[-1][1]) - 1, m[-1][2]
            key = dict(dag="dags", cache="cache", map="maps", seed="seeds")[p]
            det.update(part=p, step=j + 1, recorded=out[key][i], instance=inst[key][i])
        ctx.violation("flow functions: " + r["what"], det)
    ctx.sample(dict(combinators=out["dags"][0][:3]))
    ctx.sample(dict(cache_lookup=out["cache"][1]["ops"][0]))
    ctx.assumptions += ["five facts, integer and string valued; set and unordered_set containers",
                        "summary flow functions are documented to be passed through unwrapped"]
