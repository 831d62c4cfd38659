"""Random finite inter-procedural supergraphs with explicit distributive flow and
edge functions (instances for spec/IDE.tla and harness/toy.h).
Ids are 1-based; fact 1 is the zero fact; edge function 0 is the identity."""


def gen(rng, nf=None, maxn=6, nd=None, kind="plain"):
    """kind: plain | midseed (seeds at arbitrary nodes) | follow (returns past seeds)
             | summary (special summaries) | multistart"""
    nf = nf or rng.choice([1, 2, 2, 3, 3, 4])
    nd = nd or rng.choice([2, 3, 3, 4])
    autozero = rng.random() < 0.8
    if kind in ("follow", "multistart"):
        autozero = True
    nodes, starts, funs = [], [], []
    for f in range(1, nf + 1):
        k = rng.randint(2, maxn)
        ids = list(range(len(nodes) + 1, len(nodes) + 1 + k))
        nstart = 2 if (kind == "multistart" and f > 1 and k >= 4 and rng.random() < 0.6) else 1
        st = ids[:nstart]
        nexit = 2 if (k >= 4 and rng.random() < 0.25) else 1
        ex = ids[-nexit:]
        mid = ids[nstart:]
        for i in ids:
            isexit = i in ex
            call = (not isexit) and rng.random() < (0.45 if nf > 1 else 0.25)
            succs = []
            if not isexit:
                later = [j for j in mid if j > i] or ex
                succs.append(later[0] if rng.random() < 0.7 else rng.choice(later))
                if rng.random() < 0.35:
                    j = rng.choice(mid)
                    if j not in succs:
                        succs.append(j)
            callees = []
            if call:
                for _ in range(rng.choice([0, 1, 1, 1, 1, 2])):
                    c = rng.randint(1, nf)
                    if c not in callees:
                        callees.append(c)
            nodes.append(dict(fun=f, call=call, exit=isexit, succs=succs, callees=callees))
        starts.append(st)
        funs.append(ids)
    efs = []
    for _ in range(6):
        r = [rng.choice([1, 2, 4, 3, 5, 6, 7, 1, 2, 4]) for _ in range(3)]
        b = rng.choice([0, 0, 0, 1, 2, 4, 3])
        efs.append([b] + r)

    def fmap(keep=0.6, extra=0.15):
        m = []
        for d in range(1, nd + 1):
            row = []
            for t in range(1, nd + 1):
                if d == 1 and t == 1:
                    p = 1.0 if not autozero and rng.random() < 0.9 else 0.5
                elif t == 1:
                    p = 0.0 if rng.random() < 0.97 else 1.0   # facts normally do not flow into zero
                elif d == t:
                    p = keep
                else:
                    p = extra
                if rng.random() < p:
                    e = 0 if (d == 1 and t == 1) or rng.random() < 0.5 else rng.randint(1, len(efs))
                    row.append([t, e])
            m.append(row)
        return m
    normal, ctr, callff, retff, sumff = [], [], [], [], []
    exits = [[n for n in fs if nodes[n - 1]["exit"]] for fs in funs]
    for n, nd_ in enumerate(nodes, 1):
        if nd_["call"]:
            summarised = None
            if kind == "summary" and nd_["callees"] and rng.random() < 0.5:
                summarised = rng.choice(nd_["callees"])
            for r in nd_["succs"]:
                ctr.append(dict(n=n, m=r, map=fmap(0.5, 0.1)))
            for f in nd_["callees"]:
                if f == summarised:
                    # a summarised callee gets no facts through the call flow function
                    callff.append(dict(n=n, f=f, map=[[] for _ in range(nd)]))
                    sumff.append(dict(n=n, f=f, map=fmap(0.5, 0.2)))
                    continue
                callff.append(dict(n=n, f=f, map=fmap(0.5, 0.2)))
                for e in exits[f - 1]:
                    for r in nd_["succs"]:
                        retff.append(dict(n=n, f=f, e=e, r=r, map=fmap(0.5, 0.2)))
        else:
            for m in nd_["succs"]:
                normal.append(dict(n=n, m=m, map=fmap()))
    seeds = {}
    if kind == "follow":
        # seed functions other than the first one; callers are reached by unbalanced returns
        cand = list(range(2, nf + 1)) or [1]
        sf = rng.sample(cand, min(len(cand), rng.choice([1, 1, 2])))
        pts = [starts[f - 1][0] for f in sf]
    elif kind == "midseed":
        pts = rng.sample(range(1, len(nodes) + 1), rng.choice([1, 2]))
    elif kind == "multistart":
        pts = [starts[0][0]]
    else:
        sf = rng.sample(range(1, nf + 1), min(nf, rng.choice([1, 1, 1, 2])))
        pts = [starts[f - 1][0] for f in sf]
    for p in pts:
        for d in range(1, nd + 1):
            if rng.random() < 0.5:
                seeds[(p, d)] = rng.choice([1, 2, 4, 3, 5, 6, 7])
        if not any(k[0] == p for k in seeds):
            seeds[(p, rng.randint(1, nd))] = 7
    inst = dict(kind=kind, nn=len(nodes), nf=nf, nd=nd, nodes=nodes, starts=starts, efs=efs, normal=normal, ctr=ctr,
                callff=callff, retff=retff, sumff=sumff, seeds=[[n, d, m] for (n, d), m in sorted(seeds.items())],
                follow=(kind == "follow"), autozero=autozero)
    return finish(inst)


def finish(I):
    """Adds the indexed form used by the TLA+ side: intra[n][d] = <<m, d', e>>, ..."""
    nn, nd = I["nn"], I["nd"]
    z = lambda: [[[] for _ in range(nd)] for _ in range(nn)]
    norm, ctr, summ = z(), z(), z()
    for E in I["normal"]:
        for d, row in enumerate(E["map"]):
            norm[E["n"] - 1][d] += [[E["m"], t, e] for t, e in row]
    for E in I["ctr"]:
        for d, row in enumerate(E["map"]):
            ctr[E["n"] - 1][d] += [[E["m"], t, e] for t, e in row]
    hassum = [[] for _ in range(nn)]
    for E in I["sumff"]:
        hassum[E["n"] - 1].append(E["f"])
        for d, row in enumerate(E["map"]):
            for r in I["nodes"][E["n"] - 1]["succs"]:
                summ[E["n"] - 1][d] += [[r, t, e] for t, e in row]
    call = [[] for _ in range(nn)]
    for E in I["callff"]:
        call[E["n"] - 1].append(dict(f=E["f"], m=E["map"], sum=E["f"] in hassum[E["n"] - 1]))
    ret = [[] for _ in range(nn)]
    for E in I["retff"]:
        ret[E["n"] - 1].append(dict(f=E["f"], e=E["e"], r=E["r"], m=E["map"]))
    tab = []
    for b, *r in I["efs"]:
        row = []
        for x in range(8):
            y = b
            for k in range(3):
                if x >> k & 1:
                    y |= r[k]
            row.append(y)
        tab.append(row)
    I["t"] = dict(ef=tab, norm=norm, ctr=ctr, summ=summ, call=call, ret=ret)
    return I
