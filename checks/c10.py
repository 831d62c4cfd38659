"""C10: alias information against the executions of MiniIR programs (Alias.tla) and operation histories (AliasSets.tla)."""
import json, re
import vf, gen_alias, minirun


def run(ctx):
    exe = vf.harness("alias")
    progs = [gen_alias.gen(ctx.rng) for _ in range(ctx.q(300, 3000))]
    for p in progs:
        p["hist"] = [gen_alias.history(ctx.rng, p, False) for _ in range(3)]
    if minirun.check(ctx, exe, progs, "Alias", "two pointers hold the same address but are not reported as aliases", dict(VF_LEVEL=60), crash="alias analysis") is None:
        return
    tlc_histories(ctx, progs, ctx.path("res-Alias--0.json"))


def histories(ctx, progs):
    p, q = ctx.dump("hist.json", progs), ctx.path("hist-out.json")
    st, out = ctx.run(vf.harness("alias"), [p, q], timeout=400)
    ctx.cov["traces_validated_against_impl"] += len(progs)
    if st != "ok":
        m = re.findall(r"^program (\d+)$", out, re.M)
        k = int(m[-1]) - 1 if m else 0
        ctx.violation("alias information " + ("does not terminate" if st == "timeout" else "crashes"), dict(output=out, program=progs[k]))
        return
    tlc_histories(ctx, progs, q)


def tlc_histories(ctx, progs, res):
    r = ctx.tlc("AliasSets", env=dict(VF_RESULTS=res), timeout=800)
    if r["status"] != "ok":
        m = re.findall(r"\bidx = (\d+)", r["out"])
        h = re.findall(r"\bh = (\d+)", r["out"])
        k = int(m[-1]) - 1 if m else 0
        R = json.load(open(res))[k]
        hh = int(h[-1]) if h else 0
        ctx.violation("alias information after a history of operations is not the expected relation",
                      dict(what=r["what"], ir=progs[k]["ir"], pa=progs[k]["pa"], lazy=progs[k]["lazy"], history=R["hist"][hh - 1] if hh else None, pool=R["pool"], trace=r["trace"][:3000]))
