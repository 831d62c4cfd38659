"""C15: uses of uninitialized variables against the executions of MiniIR programs (Uninit.tla)."""
import vf, gen_uninit, minirun


def run(ctx):
    exe = vf.harness("uninit")
    progs = [gen_uninit.gen(ctx.rng) for _ in range(ctx.q(700, 8000))]
    minirun.check(ctx, exe, progs, "Uninit", "an execution uses an uninitialized value that is not reported", dict(VF_LEVEL=60, VF_COLLECT=0))
    progs = [gen_uninit.gen(ctx.rng, precise=True) for _ in range(ctx.q(250, 2500))]
    minirun.check(ctx, exe, progs, "Uninit", "a use is reported that is initialized in every execution", dict(VF_LEVEL=100000, VF_COLLECT=1), cfg="UninitPrecise", workers=1)
