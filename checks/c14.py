"""C14: leaks in executions of MiniIR programs against IFDSTaintAnalysis (Leaks.tla)."""
import vf, gen_taint, minirun


def run(ctx):
    exe = vf.harness("taint")
    progs = [gen_taint.gen(ctx.rng) for _ in range(ctx.q(1000, 10000))] + gen_taint.lib_progs(ctx.rng)
    minirun.check(ctx, exe, progs, "Leaks", "an execution leaks tainted data and the leak is not reported", dict(VF_LEVEL=60, VF_COLLECT=0))
    progs = [gen_taint.gen(ctx.rng, precise=True) for _ in range(ctx.q(300, 2500))]
    minirun.check(ctx, exe, progs, "Leaks", "a leak is reported that no execution has", dict(VF_LEVEL=100000, VF_COLLECT=1), cfg="LeaksPrecise", workers=1)
