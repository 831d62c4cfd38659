"""C03: interruptible solving (Drive*.tla scripts replayed, traces validated; results against Tabulation.tla)."""
import ast, gen_esg, json, vf


def run(ctx):
    exe = vf.harness("ide_drive")
    g = ctx.tlc("DriveGen", workers=1)
    scripts = [ast.literal_eval(l.replace("<<", "[").replace(">>", "]"))[1] for l in g["prints"]]
    ctx.rng.shuffle(scripts)
    n = ctx.q(60, 500)
    insts = []
    kinds = ["plain", "plain", "plain", "summary", "multistart", "midseed"]
    per = ctx.q(40, 60)
    for i in range(n):
        I = gen_esg.gen(ctx.rng, kind=kinds[i % len(kinds)])
        I["scripts"] = [scripts[(i * per + j) % len(scripts)] for j in range(per)]
        insts.append(I)
    # a long-running slow problem with a check interval shorter than one step
    while True:
        I = gen_esg.gen(ctx.rng, nf=4, maxn=14, nd=6)
        p = ctx.dump("one.json", [dict(I, scripts=[])])
        st, out = ctx.run(exe, [p, ctx.path("r1.json"), ctx.path("t1.json")])
        if st != "ok":
            return crash(ctx, st, out, [I])
        # T is not in the trace without scripts: estimate by results
        p = ctx.dump("one.json", [dict(I, scripts=[[["run", 0, 0]]])])
        st, out = ctx.run(exe, [p, ctx.path("r1.json"), ctx.path("t1.json")])
        if st != "ok":
            return crash(ctx, st, out, [I])
        t = [len(t["cum"]) for t in json.load(open(ctx.path("t1.json")))]
        if 1000 <= min(t) and max(t) <= 2500:
            break
    slow = [dict(I, scripts=[[["until", 0, 1]], [["timeout", 1, 1]]], sleep=1100)]
    for name, batch, tmo in (("fast", insts, 90), ("slow", slow, 120)):
        p = ctx.dump(f"inst-{name}.json", batch)
        st, out = ctx.run(exe, [p, ctx.path(f"res-{name}.json"), ctx.path(f"tr-{name}.json")], timeout=tmo)
        if st != "ok":
            return crash(ctx, st, out, batch)
        traces = json.load(open(ctx.path(f"tr-{name}.json")))
        r = ctx.tlc("DriveConf", env=dict(VF_TRACES=ctx.path(f"tr-{name}.json")))
        if r["status"] != "ok":
            ctx.violation("an operation of the interruptible solver returned or did something the protocol does not allow",
                          dict(what=r["what"], trace=r["trace"]))
        ctx.cov["traces_validated_against_impl"] += len(traces)
        r = ctx.tlc("TabConf", env=dict(VF_INSTANCES=p, VF_RESULTS=ctx.path(f"res-{name}.json")))
        if r["status"] != "ok":
            ctx.violation("an interrupted run ended in other results than specified", dict(what=r["what"], trace=r["trace"]))
        if name == "fast":
            ctx.sample(dict(script=insts[0]["scripts"][0], trace=traces[0]))
            ctx.cov["interrupted_traces"] = sum(any(e["ret"] == "none" for e in t["ev"]) for t in traces)
            ctx.cov["scripts"] = len(scripts)


def crash(ctx, st, out, batch):
    if st == "timeout":
        ctx.violation("a solving operation does not terminate although the problem has finitely many steps",
                      dict(last_output=out[-300:]))
    else:
        ctx.violation("the solver crashed on a valid sequence of operations", dict(output=out))
