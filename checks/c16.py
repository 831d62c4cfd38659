"""C16: states of file handles in executions against IDETypeStateAnalysis (FileState.tla)."""
import json, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf, gen_ts

CLANG = ["clang-14", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-S", "-emit-llvm", "-w"]


def strip(v):
    return v[:-5] if v.endswith(".addr") else v


def programs(ctx, gens, tag, cg="CHA"):
    """compile and analyse; per program the model with the reported states"""
    exe = vf.harness("typestate")

    def comp(k):
        p = ctx.path(f"{tag}{k}.c")
        open(p, "w").write(gens[k].src())
        subprocess.run(CLANG + [p, "-o", p[:-1] + "ll"], check=True, stdout=subprocess.DEVNULL)
        return dict(ir=open(p[:-1] + "ll").read(), cg=cg)
    with ThreadPoolExecutor(8) as ex:
        J = list(ex.map(comp, range(len(gens))))
    n = (len(J) + 7) // 8

    def drive(k):
        return ctx.run(exe, [ctx.dump(f"{tag}in{k}.json", J[k * n:(k + 1) * n]), ctx.path(f"{tag}out{k}.json")], timeout=600)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(drive, range((len(J) + n - 1) // n)))
    res = []
    for k, (st, out) in enumerate(rs):
        if st != "ok":
            m = re.findall(r"^program (\d+)$", out, re.M)
            i = k * n + int(m[-1]) - 1 if m else None
            ctx.violation(f"the typestate analysis {'does not terminate' if st == 'timeout' else 'crashed'}",
                          dict(output=out, source=gens[i].src() if m else None))
            return None
        res += json.load(open(ctx.path(f"{tag}out{k}.json")))
    models = []
    for g, R in zip(gens, res):
        funs = g.model()
        copies = {f["name"]: f["same"] for f in funs}
        if any([strip(a), strip(b)] not in copies[f] for f, L in R["confused"].items() for a, b in L):
            models.append(None)
            continue
        R = R["states"]
        rep = []
        for f in funs:
            rows = []
            # variables that are never read are not in question
            read = {v for c in f["code"] for v in ([c["x"]] if c["op"] != "open" else []) + c["args"]}
            for c in f["code"]:
                row = R.get(str(c["line"]))
                rows.append(["?" if row is None or c["op"] == "ret" or i + 1 not in read else row.get(v + ".addr" if i < f["np"] else v, "-") for i, v in enumerate(f["vars"])])
            rep.append(rows)
        models.append(dict(funs=funs, main=len(funs), rep=rep))
    return models


def run(ctx):
    gens = [gen_ts.Gen(ctx.rng, k % 4 == 0) for k in range(ctx.q(600, 4000))]
    models = programs(ctx, gens, "p")
    if models is None:
        return
    ctx.cov["programs_with_confused_handles"] = sum(m is None for m in models)
    gens, models = zip(*[(g, m) for g, m in zip(gens, models) if m])
    ctx.cov["programs"] = len(gens)
    ctx.cov["traces_validated_against_impl"] += len(gens)
    ctx.cov["statements"] = sum(len(f["code"]) for m in models for f in m["funs"])
    r = ctx.tlc("FileState", env=dict(VF_INSTANCES=ctx.dump("inst.json", list(models)), VF_STEPS=ctx.q(60, 90), VF_CHOICES=ctx.q(10, 13)), timeout=800)
    if r["status"] != "ok":
        m = re.findall(r"\bprogram (?:\|->|=) (\d+)", r["out"])
        k = int(m[-1]) - 1 if m else 0
        src = gens[k].src()
        ctx.violation("the state reported for a variable does not cover the state of the handle it holds",
                      dict(what=r["what"], ir="\n".join(f"{i + 1:3} {l}" for i, l in enumerate(src.split("\n"))), funs=models[k]["funs"], rep=models[k]["rep"], trace=r["trace"]))
