"""C09: control-flow graphs in both directions (Cfg.tla)."""
import json, re, vf, gen_cfg


def run(ctx):
    exe = vf.harness("cfg")
    progs = [gen_cfg.gen(ctx.rng, lazy=i % 2 == 0) for i in range(ctx.q(250, 1500))]
    st, o = ctx.run(exe, [ctx.dump("in.json", progs), ctx.path("out.json")], timeout=200)
    if st != "ok":
        bad = [p for p in progs[:400] if ctx.run(exe, [ctx.dump("one.json", [p]), ctx.path("one.out")], timeout=20)[0] != "ok"][:1]
        ctx.violation("querying the CFG " + ("hangs" if st == "timeout" else "crashes"), dict(output=o, program=bad))
        return
    r = ctx.tlc("Cfg", env=dict(CFG_INST=ctx.path("out.json")), timeout=ctx.q(300, 800))
    ctx.cov["traces_validated_against_impl"] += sum(len(p["funs"]) for p in progs)
    if r["status"] != "ok":
        det = dict(trace=r["trace"][:3000])
        st = {k: re.findall(r"/\\ %s = \"?(\w+)" % k, r["trace"]) for k in ("f", "mode", "n", "p")}
        if all(st.values()):
            f, mode, n, p = (st[k][-1] for k in ("f", "mode", "n", "p"))
            out = json.load(open(ctx.path("out.json")))
            det.update(ir=progs[int(p) - 1]["ir"], function=out[int(p) - 1]["funs"][int(f) - 1], mode=mode, statement=n)
        ctx.violation("control-flow graph: " + r["what"], det)
    r = ctx.tlc("Cfg", cfg="CfgResume", env=dict(CFG_INST=ctx.path("out.json")), timeout=ctx.q(300, 800), count=False)
    if r["status"] != "ok":
        ctx.violation("isExitInst does not agree with getExitPointsOf for resume", dict(trace=r["trace"][:2000]), key="resume-isExitInst")
    ctx.sample(dict(ir=progs[0]["ir"][:1500]))
    ctx.assumptions += ["terminators: ret, resume, unreachable, br, switch, invoke", "lazy initialization of static locals: the CFG deliberately follows only the initializing branch"]
