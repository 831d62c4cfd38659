"""C13: linear constant propagation against the executions of MiniIR programs (LCA.tla)."""
import vf, gen_lca, minirun
from mini import Mod, Fn, ic

SOUND = "a reported constant is not the value of some execution"


def ext_result():
    """if (coin()) x = 5; else x = read();"""
    m = Mod("lca")
    coin = Fn(m, "coin", "i32", [], decl=True, kind="nondet")
    f = Fn(m, "main", "i32", [])
    x = f.alloca("i32")
    c = f.icmp("ne", f.call(coin, []), ic(0))
    b = [f.block("b"), f.block("b"), f.block("b")]
    f.cbr(c, b[0], b[1])
    f.at(b[0]), f.store(ic(5), x), f.br(b[2])
    f.at(b[1]), f.store(f.call(coin, []), x), f.br(b[2])
    f.at(b[2]), f.retv(f.load(x))
    return dict(m.finish(f), ir=m.text())


def entry_param():
    """int main(int argc) { if (coin()) x = 5; else x = argc; }"""
    m = Mod("lca")
    coin = Fn(m, "coin", "i32", [], decl=True, kind="nondet")
    f = Fn(m, "main", "i32", [("i32", "argc")])
    x = f.alloca("i32")
    c = f.icmp("ne", f.call(coin, []), ic(0))
    b = [f.block("b"), f.block("b"), f.block("b")]
    f.cbr(c, b[0], b[1])
    f.at(b[0]), f.store(ic(5), x), f.br(b[2])
    f.at(b[1]), f.store(f.params[0], x), f.br(b[2])
    f.at(b[2]), f.retv(f.load(x))
    return dict(m.finish(f), ir=m.text())


def run(ctx):
    exe = vf.harness("lca")
    sound = dict(VF_LEVEL=60, VF_COLLECT=0)
    minirun.check(ctx, exe, [ext_result()], "LCA", SOUND, sound, key="ext-result")
    minirun.check(ctx, exe, [entry_param()], "LCA", SOUND, sound, key="entry-param")
    progs = [gen_lca.gen(ctx.rng) for _ in range(ctx.q(900, 8000))]
    minirun.check(ctx, exe, progs, "LCA", SOUND, sound)
    progs = [gen_lca.gen(ctx.rng, acyclic=True) for _ in range(ctx.q(150, 1500))]
    minirun.check(ctx, exe, progs, "LCA", "a constant that all executions agree on is not reported", dict(VF_LEVEL=100000, VF_COLLECT=1), cfg="LCAComplete", workers=1)
