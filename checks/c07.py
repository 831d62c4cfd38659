"""C07: callees of executed calls against the call graphs of CHA, RTA and OTF (Dispatch.tla)."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import vf, gen_cxx


def sites(M, R):
    """call site -> functions reported (numbers; implicit deleting destructors negative; others 0)"""
    num = {d: i + 1 for i, d in enumerate(M["dem"])}
    for i, c in enumerate(M["classes"]):
        q = M["cnames"][i]
        num.setdefault(f"{q}::~{q.split('::')[-1]}()#D0", -(i + 1))
    out = {}
    for alg, L in R.items():
        rows = []
        for s in M["sites"]:
            cs = L.get(str(s["line"]), [])
            if s["kind"] == "d":
                cs = [c for c in cs if c[0] == M["dem"][s["fn"] - 1]]
            else:
                cs = [c for c in cs if c[0] == ""] or cs
            if len(cs) != 1:
                raise vf.CheckError(f"call site {s} not found: {cs}")
            rows.append(sorted({num.get(n, 0) for n in cs[0][1]}))
        out[alg] = rows
    return out


def run(ctx):
    exe = vf.harness("callgraph")
    gens = [gen_cxx.Gen(ctx.rng) for _ in range(ctx.q(320, 2500))]

    def comp(k):
        p = ctx.path(f"p{k}.cpp")
        open(p, "w").write(gens[k].src())
        gen_cxx.compile_cxx(p, ctx.path(f"p{k}.ll"), mem2reg=k % 3 == 2)
        return ctx.path(f"p{k}.ll")
    with ThreadPoolExecutor(8) as ex:
        files = list(ex.map(comp, range(len(gens))))
    models = []
    for g in gens:
        m = g.model()
        m["cnames"] = [g.q(i + 1) for i in range(len(g.cls))]
        models.append(m)
    J = [dict(file=f) for f in files]
    n = (len(J) + 7) // 8

    def drive(k):
        return ctx.run(exe, [ctx.dump(f"in{k}.json", J[k * n:(k + 1) * n]), ctx.path(f"out{k}.json")], timeout=600)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(drive, range(8)))
    res = []
    for k, (st, out) in enumerate(rs):
        if st != "ok":
            m = re.findall(r"^program (\d+)$", out, re.M)
            i = k * n + int(m[-1]) - 1 if m else None
            ctx.violation(f"call-graph construction {'does not terminate' if st == 'timeout' else 'crashed'}",
                          dict(output=out, source=gens[i].src() if m else None))
            return
        res += json.load(open(ctx.path(f"out{k}.json")))
    impl = [sites(m, r) for m, r in zip(models, res)]
    ctx.cov["programs"] = len(gens)
    ctx.cov["call_sites"] = sum(len(m["sites"]) for m in models)
    ctx.cov["traces_validated_against_impl"] += len(gens)
    r = ctx.tlc("Dispatch", env=dict(VF_INSTANCES=ctx.dump("inst.json", models), VF_RESULTS=ctx.dump("res.json", impl), VF_LEVEL=ctx.q(50, 70)), timeout=800)
    if r["status"] != "ok":
        m = re.findall(r"\bidx = (\d+)", r["out"])
        k = int(m[-1]) - 1 if m else 0
        ctx.violation("an executed call has a callee that is not reported, or a callee is reported that is none",
                      dict(what=r["what"], ir=gens[k].src(), sites=models[k]["sites"], dem=models[k]["dem"], impl=impl[k], trace=r["trace"]))
    secondary_base(ctx, exe)


SECONDARY = """struct A { virtual void m1(); };
struct B { virtual void m0(); };
struct D : A, B { void m1() override; void m0() override; };
void A::m1() {} void B::m0() {}
void D::m1() {} void D::m0() {}
int main() {
  D d; B *b = &d;
  b->m0();
}
"""


def secondary_base(ctx, exe):
    """calls through a pointer to a base class that is not the first one (known finding)"""
    p = ctx.path("sec.cpp")
    open(p, "w").write(SECONDARY)
    gen_cxx.compile_cxx(p, ctx.path("sec.ll"))
    st, out = ctx.run(exe, [ctx.dump("sec.json", [dict(file=ctx.path("sec.ll"))]), ctx.path("secout.json")], timeout=60)
    if st != "ok":
        ctx.violation("call-graph construction failed", dict(output=out, source=SECONDARY))
        return
    z = dict(a=0, b=0, c=0, args=[], site=0)
    code = [dict(z, op="new", a=1, b=2), dict(z, op="vcall", a=1, b=1, site=1), dict(z, op="ret")]
    body = lambda: dict(code=[dict(z, op="ret")], nv=1, np=1)
    M = dict(classes=[dict(base=0, decl=[1, 0, 0, 0, 0]), dict(base=1, decl=[2, 0, 0, 0, 0])], pure=[], tab=[], mem=[0, 0], main=3, gobjs=[],
             funs=[body(), body(), dict(code=code, nv=1, np=0)], dem=["B::m0()", "D::m0()", "main"], cnames=["B", "D"],
             sites=[dict(f=3, line=8, kind="v", static=1, m=1, fn=0)])
    R = json.load(open(ctx.path("secout.json")))[0]
    for L in R.values():  # a thunk to the overrider counts as the overrider
        for cs in L.values():
            for c in cs:
                c[1] = [re.sub("^(non-)?virtual thunk to ", "", n) for n in c[1]]
    impl = sites(M, R)
    r = ctx.tlc("Dispatch", env=dict(VF_INSTANCES=ctx.dump("sinst.json", [M]), VF_RESULTS=ctx.dump("sres.json", [impl]), VF_LEVEL=60), timeout=100)
    if r["status"] != "ok":
        ctx.violation("virtual call through a secondary base", dict(source=SECONDARY, impl=impl, trace=r["trace"]), key="secondary-base")
