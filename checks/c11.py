"""C11: type hierarchies and virtual tables against the class declarations (Classes.tla)."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vf, gen_types, gen_cxx

LOADED = ("DIload", "DIload2", "LLload", "LLload2")


def fcode(g, n):
    if n == "":
        return 0
    if n == "__cxa_pure_virtual":
        return 1
    for i, c in enumerate(g.cls):
        q = c["q"] + ("<int>" if c["tmpl"] else "")
        for m in range(1, 8):
            if n == f"{q}::{gen_types.M[m-1]}()":
                return (i + 1) * 16 + m
        if n == f"{q}::~{c['name']}()":
            return (i + 1) * 16 + 8
        if n == f"{q}::~{c['name']}()#D0":
            return (i + 1) * 16 + 9
    return -1


def view(g, kind, R):
    num = {}
    for i, c in enumerate(g.cls):
        if kind == "DI":
            num[str(c["line"])] = i + 1
        elif not c["local"] and not c["tmpl"]:
            num[f"{c['kind']}.{c['q']}"] = i + 1
    other = {}

    def no(t):
        if t == "":
            return 0
        return num.get(t) or (0 if kind == "DI" else other.setdefault(t, len(g.cls) + 1 + len(other)))
    types = [no(t) for t in R["types"]]
    subs = [sorted(no(t) for t in a) for a, b in R["sub"]]
    ok = R["ok"] and all(sorted(a) == sorted(b) for a, b in R["sub"])
    vt = R.get("vt")
    if vt is not None:
        ok = ok and len(vt) == len(types) and all(t["ok"] for t in vt)
    return dict(kind=kind, types=types, sub=subs, names=R.get("names", []), byname=[no(t) for t in R.get("byname", [])], ok=ok,
                hasvt=vt is not None, vt=[[fcode(g, n) for n in t["fns"]] for t in vt or []])


def programs(ctx, n, load):
    """generate, compile, drive; returns generators and recorded views (None: violation reported)"""
    exe = vf.harness("types")
    gens = [gen_types.GenC(ctx.rng) if ctx.rng.random() < .06 else gen_types.Gen(ctx.rng, k % 2 == 1) for k in range(n)]

    def comp(k):
        p = ctx.path(f"t{k}." + ("c" if isinstance(gens[k], gen_types.GenC) else "cpp"))
        open(p, "w").write(gens[k].src())
        gen_cxx.compile_cxx(p, ctx.path(f"t{k}.ll"), mem2reg=k % 4 == 3)
        return ctx.path(f"t{k}.ll")
    with ThreadPoolExecutor(8) as ex:
        files = list(ex.map(comp, range(len(gens))))
    J = [dict(file=f, load=load) for f in files]
    m = (len(J) + 7) // 8
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda k: ctx.run(exe, [ctx.dump(f"tin{k}.json", J[k * m:(k + 1) * m]), ctx.path(f"tout{k}.json")], timeout=600), range(8)))
    res = []
    for k, (st, out) in enumerate(rs):
        if st != "ok":
            p = re.findall(r"^program (\d+)$", out, re.M)
            i = k * m + int(p[-1]) - 1 if p else None
            s = re.findall(r"^step (.*)$", out, re.M)
            if load or not s or "load" not in s[-1]:
                ctx.violation(f"type hierarchy {'does not terminate' if st == 'timeout' else 'crashed'} at step {s[-1:]}",
                              dict(output=out[-6000:], source=gens[i].src() if i is not None else None))
            return gens, None
        res += json.load(open(ctx.path(f"tout{k}.json")))
    return gens, [{n: view(g, "LL" if n.startswith("LL") else "DI", r) for n, r in R.items()} for g, R in zip(gens, res)]


def decide(ctx, gens, views, title):
    models = [g.model() for g in gens]
    ctx.cov["programs"] = ctx.cov.get("programs", 0) + len(gens)
    ctx.cov["classes"] = ctx.cov.get("classes", 0) + sum(len(g.cls) for g in gens)
    ctx.cov["traces_validated_against_impl"] += len(gens)
    r = ctx.tlc("Classes", env=dict(VF_INSTANCES=ctx.dump("tinst.json", models), VF_RESULTS=ctx.dump("tres.json", views)), timeout=800)
    if r["status"] != "ok":
        m = re.findall(r"\bidx = (\d+)", r["out"])
        k = int(m[-1]) - 1 if m else 0
        ctx.violation(title, dict(what=r["what"], ir=gens[k].src(), views=views[k], trace=r["trace"]))


def run(ctx):
    gens, views = programs(ctx, ctx.q(500, 6000), False)
    if views is None:
        return
    decide(ctx, gens, views, "a type hierarchy or virtual table disagrees with the class declarations")
    ctx.sample(f"program with {len(gens[0].cls)} classes: " + gens[0].src()[:400])
