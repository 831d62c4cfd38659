"""Run a harness on MiniIR programs and check what it reports with TLC."""
import json, re


def check(ctx, exe, progs, module, what, env, cfg=None, workers=8, name="p", crash="the analysis", key=None):
    tag = f"{module}-{cfg or ''}-{len(ctx.cov.get('runs', []))}"
    p, q = ctx.dump(f"inst-{tag}.json", progs), ctx.path(f"res-{tag}.json")
    st, out = ctx.run(exe, [p, q], timeout=400)
    if st != "ok":
        m = re.findall(r"^program (\d+)$", out, re.M)
        ctx.violation(f"{crash} {'does not terminate' if st == 'timeout' else 'crashed'}",
                      dict(output=out, program=progs[int(m[-1]) - 1]["ir"] if m else None))
        return None
    res = json.load(open(q))
    r = ctx.tlc(module, cfg=cfg, env=dict(VF_INSTANCES=p, VF_RESULTS=q, **env), workers=workers, timeout=800)
    ctx.cov["programs"] = ctx.cov.get("programs", 0) + len(progs)
    ctx.cov["traces_validated_against_impl"] += len(progs)
    if r["status"] != "ok":
        m = re.findall(r"\bidx = (\d+)", r["out"])
        tr = r["trace"]
        m2 = re.search(r'<<\s*"VF",.{0,3000}', r["out"], re.S)
        m3 = re.search(r"<<\s*(\d+),", m2.group(0)) if m2 else None
        k = int(m[-1]) - 1 if m else int(m3.group(1)) - 1 if m3 else None
        ctx.violation(what, dict(what=r["what"], note=m2.group(0)[:3000] if m2 else None, ir=progs[k]["ir"] if k is not None else None,
                                 reported=res[k] if k is not None else None, trace=tr), key=key)
        return None
    return res
