"""C12: stored and loaded helper analyses answer like the originals (Classes.tla, AliasSets.tla, ICFG.tla with ICFGload.cfg)."""
import c08, c10, c11
import gen_alias, vf


def run(ctx):
    # type hierarchies
    gens, views = c11.programs(ctx, ctx.q(250, 2500), True)
    if views is not None:
        c11.decide(ctx, gens, views, "a stored and loaded type hierarchy disagrees with the class declarations")
    # alias information, in histories with storing and loading in between
    progs = [gen_alias.gen(ctx.rng) for _ in range(ctx.q(200, 2000))]
    for p in progs:
        p["hist"] = [gen_alias.history(ctx.rng, p, True) for _ in range(4)]
    c10.histories(ctx, progs)
    # call graphs
    out = c08.decide(ctx, ctx.q(150, 1500), "ICFGload", "stored and loaded call graph: ")
    if out and any(set(r["vcsload"]) != set(r["vcs"]) for p in out for r in p["runs"]):
        ctx.violation("call sites without callees are not in a loaded call graph", {}, key="cg-unresolved")
