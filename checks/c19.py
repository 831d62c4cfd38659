"""C19: utility containers against their sequential models (Containers.tla)."""
import itertools, json, vf


def bvs(rng, t, n):
    hi = 3 + t // 3
    pool = [rng.randrange(hi + 1) for _ in range(rng.randint(2, 6))] + [max(0, hi - rng.randrange(4)) for _ in range(3)]
    fresh = [10 ** 6 + t * 1000]
    ops = []
    for _ in range(n):
        o = rng.choice(["insert"] * 5 + ["insertset", "insertrange", "fromrange", "sized", "erase", "erase", "eraseset", "clear", "reserve",
                                         "union", "inter", "unionwith", "interwith", "intersectWith", "copy", "copy", "move", "count", "includes", "includes", "iterins", "arith"])
        i, j = rng.randrange(3), rng.randrange(3)
        op = dict(o=o, i=i, j=j, e=rng.choice(pool), es=[rng.choice(pool) for _ in range(rng.randint(0, 4))])
        if o in ("sized", "reserve"):
            op["e"] = rng.choice([0, 1, 63, 64, 65, 130])
        if o == "iterins":
            if i == j:
                continue
            op["e"] = fresh[0]
            fresh[0] += 40
        ops.append(op)
    return dict(kind="bvs", ops=ops)


def ecm(rng, t, n):
    nk, nv = rng.randint(1, 5), rng.randint(1, 4)
    ops = []
    for _ in range(n):
        o = rng.choice(["insert"] * 6 + ["insertrange", "fromrange", "copy", "clear", "count", "find", "find"])
        ops.append(dict(o=o, i=rng.randrange(3), j=rng.randrange(3), k=rng.randrange(nk), v=rng.randrange(nv), s=rng.randrange(6),
                        kvs=[[rng.randrange(nk), rng.randrange(nv)] for _ in range(rng.randint(0, 5))]))
    return dict(kind="ecm", ops=ops)


def table(rng, t, n):
    nr, nc = rng.randint(1, 4), rng.randint(1, 4)
    ops = []
    for _ in range(n):
        o = rng.choice(["insert"] * 5 + ["getmut", "get", "get", "remove2", "remove2", "remove1", "rowmut", "row", "column", "contains", "contains", "clear", "copy", "copy", "move"])
        ops.append(dict(o=o, i=rng.randrange(3), j=rng.randrange(3), r=rng.randrange(nr), c=rng.randrange(nc), v=rng.randint(1, 3)))
        if rng.random() < 0.2:
            ops[-1]["v"] = 0      # a stored default value is still a mapping
    return dict(kind="table", ops=ops)


SVOPS = ["push", "push", "push", "push", "pushself", "pop", "pop", "popval", "popn", "popn", "clear", "shrink", "shrink", "clone", "clone", "move", "swap", "set", "frontback"]


def sv(rng, t, n):
    ops, size, big = [], [0, 0, 0], rng.choice([40, 80, 150, 270])
    v = 0
    for _ in range(n):
        o = rng.choice(SVOPS)
        i, j = rng.randrange(3), rng.randrange(3)
        if o == "push":
            bounds = [b - size[i] + d for b in (32, 64, 128, 256) for d in (-1, 0, 0, 1) if 0 < b - size[i] + d and b <= big]
            k = rng.choice(bounds) if bounds and rng.random() < 0.6 else rng.randint(1, 8)
            if size[i] + k > big + 8:
                k = 1
        elif o in ("pop", "popn"):
            bounds = [size[i] - b + d for b in (0, 32, 64, 128, 256) for d in (-1, 0, 0, 1) if 0 < size[i] - b + d]
            k = rng.choice(bounds) if bounds and rng.random() < 0.7 else rng.randint(0, 8)
        elif o == "set":
            k = rng.randrange(max(1, size[i]))
        else:
            k = rng.randrange(2)
        ops.append(dict(o=o, i=i, j=j, n=k, v=v))
        v += 1000
        if o == "push": size[i] += k
        elif o == "pushself": size[i] += size[i] > 0
        elif o in ("pop", "popn"): size[i] -= min(k, size[i])
        elif o == "popval": size[i] -= size[i] > 0
        elif o == "clear": size[i] = 0
        elif o == "clone": size[i] = size[j]
        elif o == "move" and i != j: size[i], size[j] = size[j], 0
        elif o == "swap": size[i], size[j] = size[j], size[i]
    return dict(kind="sv", ops=ops)


def sv_small(depth):
    """Every sequence of `depth` operations around the first block boundaries."""
    alpha = [dict(o="push", n=32), dict(o="push", n=33), dict(o="push", n=1), dict(o="pop", n=1), dict(o="popn", n=33), dict(o="popn", n=64),
             dict(o="clear"), dict(o="shrink"), dict(o="clone", i=1, j=0), dict(o="swap", i=0, j=1)]
    for seq in itertools.product(alpha, repeat=depth):
        ops = [dict(dict(i=0, j=0, v=100 * k, n=0), **op) for k, op in enumerate(seq)] + [dict(o="push", i=0, n=1, v=7, j=0), dict(o="clone", i=2, j=0, v=0, n=0)]
        yield dict(kind="sv", ops=ops)


def ctx_(rng, t, n):
    K = rng.randrange(4)
    ops = []
    for _ in range(n):
        o = rng.choice(["push"] * 5 + ["pop", "pop", "copy", "copy", "init"])
        ops.append(dict(o=o, i=rng.randrange(3), j=rng.randrange(3), e=rng.randint(1, 4), n=rng.randrange(4)))
    return dict(kind="ctx", K=K, ops=ops)


def run(ctx):
    exe = vf.harness("containers")
    rng = ctx.rng
    groups = dict(
        bvs=[bvs(rng, t, rng.randint(5, 30)) for t in range(ctx.q(1500, 20000))],
        ecm=[ecm(rng, t, rng.randint(5, 30)) for t in range(ctx.q(600, 10000))],
        table=[table(rng, t, rng.randint(5, 30)) for t in range(ctx.q(800, 10000))],
        ctx=[ctx_(rng, t, rng.randint(5, 30)) for t in range(ctx.q(800, 10000))],
        sv=[sv(rng, t, rng.randint(5, 25)) for t in range(ctx.q(300, 5000))],
        svx=list(sv_small(ctx.q(3, 4))))
    for name, traces in groups.items():
        size = 1000 if name != "sv" else 250
        for k in range(0, len(traces), size):
            part = traces[k:k + size]
            p, q, cur = ctx.dump(f"{name}{k}.json", part), ctx.path(f"{name}{k}.res"), ctx.path("cur")
            st, out = ctx.run(exe, [p, q, cur], timeout=200, env=dict(ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99"))
            if st != "ok":
                c = int(open(cur).read().split()[0])
                ctx.violation(f"container operation sequence crashes or does not terminate ({part[min(c, len(part)-1)]['kind']})",
                              dict(status=st, output=out, trace=part[min(c, len(part) - 1)]))
                break
            r = ctx.tlc("Containers", env=dict(VF_INSTANCES=p, VF_RESULTS=q), heap="8g")
            if r["status"] != "ok":
                ctx.violation(f"recorded operations of {part[0]['kind']} are not explained by the sequential model", dict(what=r["what"], trace=r["trace"]))
            ctx.cov["traces_validated_against_impl"] += len(part)
            if k == 0:
                ctx.sample(dict(kind=name, ops=part[0]["ops"][:4], observed=json.load(open(q))[0][:2]))
    ctx.assumptions += ["Table::size is the number of rows (as implemented); mutable row accessors are used to store something",
                        "no operation on a moved-from object other than assignment and clear"]
