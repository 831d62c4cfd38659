"""C04: the algebra of edge functions (EdgeFn.tla, EdgeHandle.tla)."""
import json, vf


def dag(rng, t):
    fam = ["flat", "flat", "pow", "bin"][t % 4]
    n = rng.choice([0, 1, 2, 4])
    hi = 7 if fam == "pow" else 3
    leaves = []
    for _ in range(rng.randint(3, 6)):
        k = rng.choice(["id", "top", "bot", "const", "const", "lin", "lin", "linh", "linc", "linc"])
        if k == "const" and fam == "pow":
            b = rng.randint(0, 7)
        else:
            b = rng.randint(0, hi)
        leaves.append(dict(k=k, a=rng.choice([0, 1, 2, 3, hi]), b=b))
    if rng.random() < .5:
        leaves.append(dict(rng.choice(leaves)))
    ops = [[rng.choice(["compose", "join"]), *( (lambda m: (rng.randrange(m), rng.randrange(m)))(len(leaves) + i))] for i in range(rng.randint(6, 14))]
    return dict(fam=fam, n=n, leaves=leaves, ops=ops)


def handles(rng, n):
    OPS = ["soo", "heap", "inplace", "cache0", "cache0", "cache0", "cache1", "copy", "copy", "copyctor", "move", "moveassign", "swap", "null", "null", "ref"]
    return [dict(o=rng.choice(OPS), i=rng.randrange(4), j=rng.randrange(4), k=rng.randrange(3)) for _ in range(n)]


# -- edge functions of the analyses -------------------------------------------
OPNAMES = ["add", "sub", "mul", "sdiv", "srem"]


def lca_ir(rng):
    """A function whose instructions yield the linear-constant edge functions."""
    lines, leaves = [], []
    for i in range(rng.randint(4, 8)):
        c = rng.choice([0, 1, -1, 2, 3, -2, 5])
        r = rng.random()
        if r < .6:
            op, side = rng.choice(OPNAMES), rng.choice("lr")
            if op in ("sdiv", "srem") and side == "l" and c == 0:
                pass  # documented: division by zero yields bottom
            l, rr = ("%x", str(c)) if side == "l" else (str(c), "%x")
            lines.append(f"  %r{i} = {op} i64 {l}, {rr}")
            leaves.append(dict(k="arith", op=op, side=side, c=c, from_="x", i=i))
        elif r < .7:
            d = rng.choice([1, 2, 3])
            lines.append(f"  %r{i} = add i64 {c}, {d}")
            leaves.append(dict(k="val", v=dict(k="V", v=c + d), from_="zero", i=i))
        elif r < .8:
            lines.append(f"  %r{i} = add i64 %x, %y")
            leaves.append(dict(k="bot", from_="x", i=i))
        elif r < .9:
            lines.append(f"  store i64 {c}, i64* %p")
            leaves.append(dict(k="val", v=dict(k="V", v=c), from_="store", i=i))
        else:
            lines.append(f"  %r{i} = alloca i64")
            leaves.append(dict(k="bot", from_="zero", i=i))
    return dict(ir="define i64 @main(i64 %x, i64 %y, i64* %p) {\nentry:\n" + "\n".join(lines) + "\n  ret i64 0\n}\n", leaves=leaves)


def llvm_dags(ctx):
    rng, out = ctx.rng, []
    for t in range(ctx.q(120, 800)):
        fam = ["lca", "ts", "iia"][t % 3]
        d = dict(fam=fam)
        if fam == "lca":
            d.update(lca_ir(rng))
        elif fam == "ts":
            d["tsd"] = rng.choice(["file", "file", "evp"])
            api = {"file": ["fclose", "fputc", "fflush", "ungetc"], "evp": ["EVP_KDF_free"]}[d["tsd"]]
            d["calls"] = [rng.choice(api) for _ in range(rng.randint(2, 4))]
        else:
            d["masks"] = [rng.randrange(8) for _ in range(rng.randint(3, 6))]
            d["kinds"] = [rng.choice(["add", "add", "kill"]) for _ in d["masks"]]
        d["ops"] = [[rng.choice(["compose", "join"]), rng.randrange(1000), rng.randrange(1000)] for _ in range(rng.randint(6, 12))]
        out.append(d)
    return out


def run(ctx):
    exe = vf.harness("edgefn")
    inst = dict(dags=[dag(ctx.rng, t) for t in range(ctx.q(1500, 9000))], handles=[handles(ctx.rng, ctx.q(60, 120)) for _ in range(ctx.q(150, 800))])
    st, o = ctx.run(exe, [ctx.dump("in.json", inst), ctx.path("out.json")], timeout=300, env={"ASAN_OPTIONS": "detect_leaks=1"})
    if st != "ok":
        ctx.violation("edge function operations " + ("hang" if st == "timeout" else "crash"), dict(instance=inst if len(json.dumps(inst)) < 10 ** 6 else "large", output=o))
        return
    out = json.load(open(ctx.path("out.json")))
    dags = out["dags"]
    exe2 = vf.harness("edgefn_llvm")
    inst2 = dict(dags=llvm_dags(ctx))
    st, o = ctx.run(exe2, [ctx.dump("in2.json", inst2), ctx.path("out2.json")], timeout=300)
    if st != "ok":
        ctx.violation("analysis edge functions " + ("hang" if st == "timeout" else "crash"), dict(output=o))
        return
    dags += json.load(open(ctx.path("out2.json")))["dags"]
    r = ctx.tlc("EdgeFn", env=dict(EF_INST=ctx.dump("dags.json", dict(dags=dags))), timeout=ctx.q(300, 800))
    ctx.cov["traces_validated_against_impl"] += len(dags)
    if r["status"] != "ok":
        ctx.violation("edge function algebra: " + r["what"], dict(trace=r["trace"][:3000], dags=explain(r, dags)))
    r = ctx.tlc("EdgeHandle", env=dict(EH_TRACE=ctx.dump("h.json", out["handles"])), timeout=ctx.q(300, 800))
    ctx.cov["traces_validated_against_impl"] += len(out["handles"])
    if r["status"] != "ok":
        ctx.violation("edge function handles: " + r["what"], dict(trace=r["trace"][:6000]))
    ctx.sample(dict(dag=dict(fam=dags[0]["fam"], nodes=[x["op"] for x in dags[0]["nodes"]])))
    ctx.cov["dags"] = len(dags)
    ctx.assumptions += ["compositions after all-top (no path) and after all-bottom with a non-constant function are only required to be neutral / an upper bound",
                        "joins with identity in the instruction-interaction analysis under-approximate by documented design",
                        "the extended taint analysis' edge functions are not covered"]


def explain(r, dags):
    import re
    m = re.findall(r"/\\ d = (\d+)\s+/\\ n = (\d+)", r["trace"])
    if not m:
        return None
    d, n = map(int, m[-1])
    return dict(dag=dags[d - 1], node=n)
