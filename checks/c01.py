"""C01: the IDE solver's values (Tabulation.tla, TabOrder.tla, Walk.tla against the real solver)."""
import gen_esg, solver, vf


def run(ctx):
    exe = vf.harness("ide_toy")
    kinds = ["plain"] * 4 + ["summary", "multistart"]
    insts = [gen_esg.gen(ctx.rng, kind=kinds[i % len(kinds)]) for i in range(ctx.q(1500, 20000))]
    insts += [gen_esg.gen(ctx.rng, nf=ctx.rng.randint(3, 6), maxn=ctx.rng.randint(7, 12), nd=ctx.rng.randint(3, 6))
              for _ in range(ctx.q(40, 400))]
    r = solver.batch(ctx, exe, insts, "main")
    if r is None:
        return
    env, res = r
    solver.stats(ctx, insts, res, "ide")
    solver.check(ctx, "TabConf", env, "the reported environment differs from the tabulation algorithm's")
    small = [I for I in insts if I["nn"] <= 24][: ctx.q(1200, 15000)]
    r = solver.batch(ctx, exe, small, "small")
    if r:
        solver.check(ctx, "Walk", r[0], "the reported environment differs from the join over all valid paths")
    tiny = [gen_esg.gen(ctx.rng, nf=2, maxn=3, nd=2) for _ in range(ctx.q(60, 1500))]
    r = solver.batch(ctx, exe, tiny, "tiny")
    if r:
        solver.check(ctx, "TabOrder", r[0], "the reported environment differs from the tabulation algorithm's (some order)")
    ctx.sample(dict(instance={k: v for k, v in insts[0].items() if k != "t"}, reported=res[0]["ide"]["solve"]))
    ctx.assumptions.append("seeds at function entry points; edge functions are total and union-distributive on a powerset lattice")
