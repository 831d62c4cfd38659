"""C06: intra-procedural monotone solver against Mono.tla."""
import json, vf


def gen(rng, maxn=9, nb=None):
    nf = rng.choice([1, 1, 1, 2])
    nb = nb or rng.choice([1, 2, 3, 3, 4])
    fun, succs, seeds = [], [], []
    for f in range(1, nf + 1):
        k = rng.randint(1, maxn)
        base = len(fun)
        ids = list(range(base + 1, base + 1 + k))
        for i in ids:
            fun.append(f)
            ss = []
            if i != ids[-1]:
                later = [j for j in ids if j > i]
                ss.append(later[0] if rng.random() < 0.75 else rng.choice(later))
                if rng.random() < 0.4:
                    j = rng.choice(ids[1:])       # back edges, self loops; never into the entry
                    if j not in ss:
                        ss.append(j)
                if rng.random() < 0.1:
                    j = rng.choice(ids[1:])
                    if j not in ss:
                        ss.append(j)
                rng.shuffle(ss)
            succs.append(ss)
        if rng.random() < 0.7:
            seeds.append([ids[0], rng.randrange(1 << nb)])
    tab = []
    for _ in fun:
        style = rng.random()
        if style < 0.5:   # gen/kill
            g, kl = rng.randrange(1 << nb) & rng.randrange(1 << nb), rng.randrange(1 << nb) & rng.randrange(1 << nb)
            tab.append([(x & ~kl) | g for x in range(1 << nb)])
        else:             # arbitrary monotone
            rules = [(rng.randrange(1 << nb), rng.randrange(1 << nb) & rng.randrange(1 << nb)) for _ in range(rng.randint(1, 5))]
            row = []
            for x in range(1 << nb):
                y = 0
                for c, r in rules:
                    if c & ~x == 0:
                        y |= r
                row.append(y)
            tab.append(row)
    return dict(nn=len(fun), nb=nb, nf=nf, fun=fun, succs=succs, tab=tab, seeds=seeds, meet=rng.random() < 0.4)


def run(ctx):
    exe = vf.harness("mono_toy")
    for name, cfg, insts in (("main", "Mono", [gen(ctx.rng) for _ in range(ctx.q(1500, 30000))] +
                              [gen(ctx.rng, maxn=30) for _ in range(ctx.q(100, 2000))]),
                             ("tiny", "MonoOrder", [gen(ctx.rng, maxn=4, nb=2) for _ in range(ctx.q(300, 3000))])):
        p, q = ctx.dump(f"inst-{name}.json", insts), ctx.path(f"res-{name}.json")
        st, out = ctx.run(exe, [p, q], timeout=200)
        if st != "ok":
            ctx.violation("the monotone solver crashes or does not terminate", dict(status=st, output=out))
            return
        r = ctx.tlc("Mono", cfg=cfg, env=dict(VF_INSTANCES=p, VF_RESULTS=q))
        if r["status"] != "ok":
            ctx.violation("the solution is not the least solution of the data-flow equations", dict(what=r["what"], trace=r["trace"]))
        ctx.cov["traces_validated_against_impl"] += 2 * len(insts)
        if name == "main":
            ctx.sample(dict(instance=insts[0], reported=json.load(open(q))[0]))
    ctx.assumptions.append("seeds at function entry statements, which have no predecessors (as in LLVM IR)")
