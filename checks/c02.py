"""C02: the facts reported by IFDS (Tabulation.tla, Walk.tla against the real solver), returns past seeds."""
import gen_esg, solver, vf


def run(ctx):
    exe = vf.harness("ide_toy")
    kinds = ["plain", "plain", "midseed", "follow", "follow", "summary", "multistart"]
    insts = [gen_esg.gen(ctx.rng, kind=kinds[i % len(kinds)]) for i in range(ctx.q(1700, 20000))]
    insts += [gen_esg.gen(ctx.rng, kind=k, nf=ctx.rng.randint(3, 6), maxn=ctx.rng.randint(7, 12), nd=ctx.rng.randint(3, 6))
              for k in ("midseed", "follow") for _ in range(ctx.q(20, 200))]
    r = solver.batch(ctx, exe, insts, "main")
    if r is None:
        return
    env, res = r
    solver.stats(ctx, insts, res, "ifds")
    solver.check(ctx, "TabConf", env, "the reported facts differ from the tabulation algorithm's")
    small = [I for I in insts if I["nn"] <= 24][: ctx.q(1200, 15000)]
    r = solver.batch(ctx, exe, small, "small")
    if r:
        solver.check(ctx, "Walk", r[0], "the reported facts differ from those reached by valid paths")
    ctx.sample(dict(instance={k: v for k, v in insts[2].items() if k != "t"}, reported=res[2]["ifds"]["solve"]))
