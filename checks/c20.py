"""C20: project database against IRDB.tla."""
import json, re, vf

FN = ["main", "f", "f.1", "g", "foo.bar.2", "_ZN3Foo3barEv", "h-x", "f.f", "a12b", "F"]
GN = ["g1", "g.2", "main_g", "_ZTV1A", "z", "G"]


def gen(rng):
    funs, globs, txt = [], [], ""
    for n in rng.sample(GN, rng.randint(0, 4)):
        k = rng.choice(["def", "internal", "private", "decl", "const"])
        q = f'@"{n}" = ' + dict(**{"def": "global i32 1", "internal": "internal global i32 2", "private": "private global i32 2",
                                   "decl": "external global i32", "const": "constant i8 3"})[k] + "\n"
        txt += q
        globs.append(dict(name=n, decl=k == "decl", local=k in ("internal", "private")))
    if rng.random() < .3:
        txt += '@0 = private constant i32 1\n'
        globs.append(dict(name="", decl=False, local=True))
    for n in rng.sample(FN, rng.randint(1, 6)):
        na = rng.randint(0, 3)
        args = ", ".join(["i32"] * na)
        k = rng.choice(["", "", "", "internal", "linkonce_odr", "weak", "decl"])
        if k == "decl":
            txt += f'declare i32 @"{n}"({args})\n'
            insts = []
        else:
            ni = rng.choice([1, 1, 2, 3, 5, 12])
            txt += f'define {k} i32 @"{n}"({args}) {{\n'
            first = na                       # unnamed arguments, then the unnamed entry block
            body = []
            blk = rng.random() < .3 and ni > 2
            for x in range(ni - 1):
                if blk and x == 1:
                    body.append("  br label %l")
                    body.append("l:")
                else:
                    body.append(f"  %v{x} = alloca i32")
            body.append("  ret i32 0")
            txt += "\n".join(body) + "\n}\n"
            insts = [f"{n}#{j}" for j in range(ni)]
        funs.append(dict(name=n, decl=k == "decl", ext=k == "" or k == "decl", insts=insts, args=[f"{n}@{j}" for j in range(na)]))
    ins = []
    for n in rng.sample(["__psrCRuntimeGlobalCtorsModel", "__psrGlobalDtorsCaller.a.ll", "gen", "gen.1"], rng.randint(0, 3)):
        k = rng.randint(1, 4)
        ins.append(dict(name=n, n=k, fun=dict(name=n, decl=False, ext=True, insts=[f"{n}#{j}" for j in range(k)], args=[f"{n}@0"])))
    created = rng.sample(range(len(ins)), rng.randint(0, len(ins))) if rng.random() < .5 else []
    names = FN + GN + ["gen", "gen.1", "__psrCRuntimeGlobalCtorsModel", "nope", "g1x"]
    ents = [["__ALL__"], ["main"]]
    for _ in range(3):
        e = [rng.choice(FN + ["nope", "gen"]) for _ in range(rng.randint(1, 4))]
        ents.append(e)
    return dict(ir=txt, mod=dict(globals=globs, funs=funs), names=names, entries=ents, inserts=ins, created=created)


def run(ctx):
    exe = vf.harness("irdb")
    progs = [gen(ctx.rng) for _ in range(ctx.q(300, 5000))]
    st, o = ctx.run(exe, [ctx.dump("in.json", progs), ctx.path("out.json")], timeout=300)
    if st != "ok":
        ctx.violation("querying the project database crashes or hangs", dict(status=st, output=o))
        return
    r = ctx.tlc("IRDB", env=dict(IRDB_OBS=ctx.path("out.json")), timeout=ctx.q(300, 850))
    if r["status"] != "ok":
        det = dict(trace=r["trace"][:3000])
        v = {k: re.findall(r"/\\ %s = (\d+)" % k, r["trace"]) for k in ("p", "r", "i")}
        if all(v.values()):
            p, q, i = (int(v[k][-1]) for k in ("p", "r", "i"))
            out = json.load(open(ctx.path("out.json")))[p - 1]
            det.update(ir=progs[p - 1]["ir"], how=out["runs"][q - 1]["how"], inserts=i, answers=out["runs"][q - 1]["snaps"][i])
        ctx.violation("project database: " + r["what"], det)
    ctx.cov["traces_validated_against_impl"] += 4 * len(progs)
    ctx.sample(dict(ir=progs[0]["ir"]))
