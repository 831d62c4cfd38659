"""Shared by C01/C02: run the real solver on generated supergraphs and check the results with TLC."""
import json
import gen_esg, vf


def batch(ctx, exe, insts, name):
    p = ctx.dump(f"inst-{name}.json", insts)
    q = ctx.path(f"res-{name}.json")
    st, out = ctx.run(exe, [p, q], timeout=300)
    if st != "ok":
        ctx.violation(f"the solver {'does not terminate' if st == 'timeout' else 'crashed'} on a valid problem",
                      dict(output=out, instances=p))
        return None
    return dict(VF_INSTANCES=p, VF_RESULTS=q), json.load(open(q))


def check(ctx, module, env, what, cfg=None):
    r = ctx.tlc(module, env=env, cfg=cfg, timeout=800)
    if r["status"] != "ok":
        ctx.violation(what, dict(what=r["what"], trace=r["trace"]))
    return r


def stats(ctx, insts, res, mode):
    """how many instances report something beyond the seeded zero fact"""
    non = 0
    for I, R in zip(insts, res):
        facts = {(n, f) for n, row in enumerate(R[mode]["solve"]) for f, v in row if f != 1}
        calls = any(n["call"] and n["callees"] for n in I["nodes"])
        if len(facts) >= 4 and calls:
            non += 1
    ctx.cov["instances"] = ctx.cov.get("instances", 0) + len(insts)
    ctx.cov["instances_nontrivial"] = ctx.cov.get("instances_nontrivial", 0) + non
    ctx.cov["traces_validated_against_impl"] += sum(len(R["ide"]) + len(R["ifds"]) for R in res)
