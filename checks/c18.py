"""C18: path reconstruction on exploded supergraphs (PathDag.tla)."""
import json, re, vf


def gen_esg(rng, cyc):
    """A program of basic blocks, its flow relation explored from seeds; every
    explored edge is recorded, in exploration order, as the solvers do."""
    nb = rng.randint(1, 5)
    blocks, first, last, stmts = [], {}, {}, []
    for b in range(nb):
        for i in range(rng.choice([1, 1, 2, 3, 4])):
            blocks.append(b + 1)
            stmts.append(len(blocks))
            first.setdefault(b, len(blocks))
            last[b] = len(blocks)
    succ = {s: [] for s in stmts}
    for s in stmts:
        b = blocks[s - 1] - 1
        if s != last[b]:
            succ[s].append((s + 1, "n"))
    for b in range(nb):
        later = list(range(b + 1, nb))
        rng.shuffle(later)
        for t in later[:rng.choice([1, 1, 2, 3])]:
            succ[last[b]].append((first[t], "n"))
        if cyc and rng.random() < .4:
            succ[last[b]].append((first[rng.randint(0, b)], "n"))
    # calls: a callee of its own blocks, entered from one or more call statements
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        sites = [s for s in stmts if s < len(blocks) + 1 and blocks[s - 1] <= nb and s != last[blocks[s - 1] - 1] and succ[s] == [(s + 1, "n")]]
        if not sites:
            break
        use = rng.sample(sites, min(len(sites), rng.choice([1, 1, 2, 2])))
        cb = max(blocks) + 1
        ids = []
        for k in range(rng.choice([1, 1, 2])):
            for i in range(rng.choice([1, 1, 2, 3])):
                blocks.append(cb + k)
                ids.append(len(blocks))
        for x in ids:
            stmts.append(x)
            succ[x] = [(x + 1, "n")] if x != ids[-1] else []
        if cyc and len(ids) > 1 and rng.random() < .3:      # the callee calls itself
            use.append(rng.choice(ids[:-1]))
        for s in use:
            succ[s] = [(ids[0], "call"), (s + 1, "ctr")]
            if cyc or s == max(use):     # an early return would close a cycle
                succ[ids[-1]].append((s + 1, "ret"))
    nf = rng.randint(1, 3)
    flow = {}

    def f(s, t, k, d):
        if (s, t, k, d) not in flow:
            if d == 0:
                r = {0} | {x for x in range(1, nf + 1) if rng.random() < .25}
                if k == "ctr":
                    r = {0} | {x for x in r if rng.random() < .3}
            else:
                r = {d} if rng.random() < (.5 if k == "call" else .75) else set()
                r |= {x for x in range(1, nf + 1) if rng.random() < .2}
            flow[s, t, k, d] = sorted(r)
        return flow[s, t, k, d]
    seeds = [(1, 0)]
    if rng.random() < .3:
        seeds.append((rng.choice(stmts), rng.choice([0, 1])))
    if rng.random() < .15:
        seeds[0] = (rng.choice(stmts[:3] or stmts), rng.choice([0, 1]))
    if not cyc:     # nothing may flow into a seed of an acyclic case
        seeds = [(n, d) for n, d in seeds if n == 1]
    seeds = sorted(set(seeds)) or [(1, 0)]
    wl, seen, record, edges = list(seeds), set(seeds), [], set()
    mode = rng.choice(["lifo", "fifo", "rnd"])
    while wl:
        i = len(wl) - 1 if mode == "lifo" else 0 if mode == "fifo" else rng.randrange(len(wl))
        n, d = wl.pop(i)
        for t, k in succ[n]:
            ds = f(n, t, k, d)
            record.append(dict(n=n, d=d, s=t, ds=ds, k=k))
            for x in ds:
                if not (k == "ctr" and d == 0 and x == 0):
                    edges.add((n, d, t, x))
                else:
                    edges.add((n, d, t, x, "skip"))
                if (t, x) not in seen:
                    seen.add((t, x))
                    wl.append((t, x))
        if rng.random() < .1 and record:
            record.append(dict(rng.choice(record)))
    # a seed that is reached from elsewhere before it is processed is an ordinary node
    met, starts = set(), []
    for r in record:
        if (r["n"], r["d"]) in seeds and (r["n"], r["d"]) not in met and (r["n"], r["d"]) not in starts:
            starts.append((r["n"], r["d"]))
        met |= {(r["s"], x) for x in r["ds"]}
    seeds = starts
    # the zero fact does not flow around calls, unless nothing comes back from the callee: then paths start there
    real = {x for x in edges if len(x) == 4}
    into = {(t, x) for _, _, t, x in real}
    pseudo = {(n, t) for n, d, t, x, *_ in (z for z in edges if len(z) == 5) if (t, x) not in into and (t, x) not in seeds}
    nodes, num = [], {}

    def nid(n, d, tag=""):
        if (n, d, tag) not in num:
            nodes.append([n, blocks[n - 1], -1 if tag else d])
            num[n, d, tag] = len(nodes)
        return num[n, d, tag]
    es = [[nid(n, d), nid(t, x)] for n, d, t, x in sorted(real)]
    sn = [nid(n, d) for n, d in seeds]
    for n, t in sorted(pseudo):
        p = nid(n, 0, "start")
        es.append([p, nid(t, 0)])
        sn.append(p)
    # acyclic, once the facts that are kept inside a basic block are identified?
    rep = {}

    def find(v):
        while v in rep:
            v = rep[v]
        return v
    ident = [[u, v] for u, v in es if nodes[u - 1][1:] == nodes[v - 1][1:] and nodes[u - 1][2] > 0]
    for u, v in ident:
        if find(u) != find(v):
            rep[find(u)] = find(v)
    g = {}
    for u, v in es:
        if [u, v] not in ident:
            g.setdefault(find(u), set()).add(find(v))
    state, acyc = {}, True

    def dfs(u):
        nonlocal acyc
        state[u] = 1
        for v in g.get(u, []):
            if state.get(v) == 1:
                acyc = False
            elif v not in state:
                dfs(v)
        state[u] = 2
    for u in list(g):
        if u not in state:
            dfs(u)
    # some nodes are only reached around calls that never return
    reach, wl = set(sn), list(sn)
    while wl:
        u = wl.pop()
        for a, b in es:
            if a == u and b not in reach:
                reach.add(b)
                wl.append(b)
    qn = sorted({(nodes[v - 1][0], nodes[v - 1][2]) for _, v in es if v in reach})
    if not qn:
        return None
    queries = []
    for _ in range(3):
        n, d = rng.choice(qn)
        ds = [d]
        if rng.random() < .35:
            ds = [x for m, x in qn if m == n]
            rng.shuffle(ds)
        queries.append(dict(n=n, ds=ds))
    dep = rng.randint(0, 4)
    confs = [dict(min=False, depth=-1), dict(min=True, depth=-1), dict(min=False, depth=dep), dict(min=True, depth=dep)]
    return dict(kind="esg", blocks=blocks, nodes=nodes, edges=es, seeds=sn, acyclic=acyc, exact=False, record=record, queries=queries, configs=confs)


def gen_dag(rng):
    n = rng.randint(1, 9)
    al = rng.choice([1, 2, 3])
    labels = [[rng.randint(1, al) for _ in range(rng.choice([1, 1, 1, 2]))] for _ in range(n)]
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    edges = [[perm[i], perm[j]] for i in range(n) for j in range(i + 1, n) if rng.random() < rng.choice([.2, .4, .6])]
    rng.shuffle(edges)
    inn = {v for _, v in edges}
    roots = [v for v in range(1, n + 1) if v not in inn or rng.random() < .1]
    return dict(kind="dag", labels=labels, edges=edges, roots=roots)


# facts that are kept inside a basic block are merged, so that paths may go through its statements in a wrong order
CONF = [dict(min=False, depth=-1)]
MERGED = {
    "merged-statements": dict(
        kind="esg", exact=True, acyclic=False, blocks=[1, 1, 1], nodes=[[1, 1, 0], [2, 1, 0], [2, 1, 1], [3, 1, 1]],
        edges=[[1, 2], [1, 3], [3, 4], [2, 4]], seeds=[1], configs=CONF, queries=[dict(n=2, ds=[1])],
        record=[dict(n=1, d=0, s=2, ds=[0, 1], k="n"), dict(n=2, d=1, s=3, ds=[1], k="n"), dict(n=2, d=0, s=3, ds=[1], k="n")]),
    "merged-calls": dict(
        kind="esg", exact=True, acyclic=False, blocks=[1, 1, 1, 2, 3], nodes=[[s, b, 1] for s, b in zip((1, 2, 3, 4, 5), (1, 1, 1, 2, 3))],
        edges=[[1, 5], [1, 2], [5, 2], [2, 4], [2, 3], [4, 3]], seeds=[1], configs=CONF, queries=[dict(n=3, ds=[1])],
        record=[dict(n=n, d=1, s=s, ds=[1], k=k) for n, k, s in ((1, "call", 5), (1, "ctr", 2), (5, "ret", 2), (2, "call", 4), (2, "ctr", 3), (4, "ret", 3))])}


def tlc(ctx, cases, obs, timeout):
    return ctx.tlc("PathDag", env=dict(PD_CASES=ctx.dump("cases.json", cases), PD_OBS=ctx.dump("obs.json", obs)), timeout=timeout)


def run(ctx):
    exe = vf.harness("pathdag")
    for key, case in MERGED.items():
        st, o = ctx.run(exe, [ctx.dump("in.json", [case]), ctx.path("out.json")], timeout=100)
        if st != "ok":
            ctx.violation("path reconstruction does not terminate or crashes", dict(output=o, case=case))
            continue
        obs = json.load(open(ctx.path("out.json")))
        r = tlc(ctx, [case], obs, 100)
        if r["status"] != "ok":
            ctx.violation("path through a basic block in a wrong order", dict(case=case, dags=obs, trace=r["trace"][-2000:]), key=key)
    cases = [gen_dag(ctx.rng) for _ in range(ctx.q(600, 8000))]
    cases += [c for c in (gen_esg(ctx.rng, i % 3 == 0) for i in range(ctx.q(900, 12000))) if c]
    at = 0
    obs, kept, todo = [], [], cases
    while todo and len(ctx.violations) < 3:
        st, o = ctx.run(exe, [ctx.dump("in.json", todo), ctx.path("out.json")], timeout=ctx.q(200, 700))
        if st == "ok":
            obs += json.load(open(ctx.path("out.json")))
            kept += todo
            break
        k = int(open(ctx.path("out.json.at")).read() or 0)
        ctx.violation("path reconstruction does not terminate or crashes", dict(output=o, case=todo[k]))
        todo = todo[k + 1:]
    if ctx.violations:
        return
    r = tlc(ctx, kept, obs, ctx.q(400, 850))
    ctx.cov["traces_validated_against_impl"] += sum(len(x) for o in obs for x in o)
    ctx.cov["acyclic"] = sum(1 for c in kept if c.get("acyclic"))
    ctx.cov["cyclic"] = sum(1 for c in kept if c.get("acyclic") is False)
    if r["status"] != "ok":
        det = dict(trace=r["trace"][-3000:])
        m = {k: re.findall(r"/\\ %s = (\d+)" % k, r["trace"]) for k in ("case", "query")}
        if all(m.values()):
            p, q = (int(m[k][-1]) for k in ("case", "query"))
            det.update(case=kept[p - 1], query=q, dags=obs[p - 1][q - 1])
        ctx.violation("path DAG: " + r["what"], det)
    ctx.sample(dict(case=next(c for c in kept if c["kind"] == "esg")))
    ctx.assumptions += ["completeness on acyclic exploded supergraphs, up to statements inside one basic block", "calls and returns need not match"]
