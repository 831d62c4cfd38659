"""Programs about pointers (MiniIR) and histories of operations on alias information."""
import mini
from mini import ic, null

PT = ["i32*", "i32*", "i32**", "i8*", "i32***", "FP"]
FP = "void (i32*)*"


class G:
    def __init__(self, rng):
        self.rng = r = rng
        self.m = mini.Mod(mode="plain", nd=(0, 1))
        m = self.m
        self.nd = mini.Fn(m, "nd", "i32", [], decl=True, kind="nondet")
        self.mallocf = mini.Fn(m, r.choice(["malloc", "_Znwm"]), "noalias i8*" if False else "i8*", [("i64", "n")], decl=True, kind="malloc", size=4)
        self.ext = mini.Fn(m, "ext", "void", [("i8*", "p")], decl=True, kind="none")
        self.gl = {t: [] for t in ["i32*", "i32**", "i8*", "i32***", FP]}
        for k in range(r.randint(0, 2)):
            self.gl["i32*"].append(m.glob(f"g{k}", "i32", "0", [ic(0)], link=r.choice(["", "internal "])))
        if r.random() < .5:
            a = r.random() < .5 and self.gl["i32*"]
            self.gl["i32**"].append(m.glob("gp", "i32*", a[0].txt if a else "null", [a[0] if a else null("i32*")], link=r.choice(["", "internal "])))
        if r.random() < .4:
            a = m.glob("ga", "[3 x i32]", "zeroinitializer", [ic(0)] * 3)
            for n in r.sample(range(3), 2):
                self.gl["i32*"].append(mini.V("i32*", f"getelementptr inbounds ([3 x i32], [3 x i32]* @ga, i64 0, i64 {n})", ["g", a.m[1], n]))
        if self.gl["i32*"] and r.random() < .4:
            a = r.choice(self.gl["i32*"])
            self.gl["i8*"].append(mini.V("i8*", f"bitcast (i32* {a.txt} to i8*)", list(a.m)))
        self.funs, self.sigs, self.leaf = [], [], []
        for k in range(r.randint(0, 2)):
            self.leaf.append(mini.Fn(m, f"leaf{k}", "void", [("i32*", "a")]))
        for f in self.leaf:
            if r.random() < .5:
                f.store(ic(1), f.params[0])
            if self.gl["i32**"] and r.random() < .4:
                f.store(f.params[0], self.gl["i32**"][0])
            f.retv()
        if self.leaf and r.random() < .5:
            self.gl[FP + "*"] = [m.glob("gfp", FP, self.leaf[0].ref().txt, [self.leaf[0].ref()])]
        for k in range(r.randint(0, 3)):
            ps = [(r.choice(["i32*", "i32*", "i32**", "i8*", FP if self.leaf else "i32*"]), f"p{q}") for q in range(r.randint(1, 3))]
            ret = r.choice(["void", "i32*", "i32*", "i32**", "i8*"])
            f = mini.Fn(m, r.choice(["f", "a.f"]) + str(k), ret, ps, link=r.choice(["", "internal "]))
            self.funs.append(f)
        self.main = mini.Fn(m, "main", "i32", [])
        for k, f in enumerate(self.funs):
            self.body(f, self.funs[k:] if r.random() < .15 else self.funs[k + 1:])
        self.body(self.main, self.funs)

    def body(self, f, callees):
        r = self.rng
        self.f, self.callees = f, callees
        env = {}
        for p in f.params:
            env.setdefault(p.ty, []).append(p)
        self.left = r.randint(4, 12)
        self.slots = {}
        self.block(env, 0)
        if f.ret == "void":
            f.retv()
        elif f.ret == "i32":
            f.retv(ic(0))
        else:
            f.retv(self.ptr(env, f.ret))

    def ptr(self, env, ty, make=True):
        """a pointer of this type"""
        r = self.rng
        c = list(env.get(ty, ()))
        if self.gl.get(ty) and r.random() < .3:
            return r.choice(self.gl[ty])
        if ty == FP and self.leaf and (not c or r.random() < .4):
            return r.choice(self.leaf).ref()
        if c:
            return r.choice(c[-4:]) if r.random() < .6 else r.choice(c)
        if not make or r.random() < .1:
            return null(ty)
        return self.alloc(env, ty)

    def alloc(self, env, ty):
        r = self.rng
        f = self.f
        el = ty[:-1]
        if ty == FP or el == "i8" or (ty == "i32*" and r.random() < .25):
            if ty == FP:
                return null(ty)
            v = f.call(self.mallocf, [ic(16, "i64")], x=4)
            env.setdefault("i8*", []).append(v)
            if ty == "i8*":
                return v
            b = f.bitcast(v, ty)
        else:
            b = f.alloca(el)
            if el[-1] == "*" and r.random() < .8:
                f.store(self.ptr(env, el, make=False), b)
        env.setdefault(ty, []).append(b)
        return b

    def add(self, env, v):
        env.setdefault(v.ty, []).append(v)
        return v

    def stmt(self, env, depth):
        r, f = self.rng, self.f
        k = r.choice(["alloc", "alloc", "store", "store", "store", "load", "load", "load", "gep", "cast", "sel", "call", "call", "fcall", "if", "loop", "arr", "fslot", "ext", "st", "sw"])
        ty = r.choice(["i32*", "i32*", "i32**", "i32***"])
        if k == "alloc":
            self.alloc(env, ty)
        elif k == "store":
            p = self.ptr(env, r.choice(["i32**", "i32**", "i32***"]))
            if p.m[0] != "0":
                f.store(self.ptr(env, p.ty[:-1]), p)
        elif k == "load":
            p = self.ptr(env, r.choice(["i32**", "i32**", "i32***"]))
            if p.m[0] != "0":
                self.add(env, f.load(p))
        elif k == "gep":
            p = self.ptr(env, r.choice(["i32*", "i32**"]))
            if p.m[0] == "r":
                n = r.choice([0, 0, 1, 2])
                self.add(env, f.gep(p, f"i64 {n}", p.ty, off=n))
        elif k == "cast":
            a = r.choice(["i32*", "i32**", "i8*"])
            p = self.ptr(env, a)
            to = "i8*" if a != "i8*" else r.choice(["i32*", "i32**"])
            if p.m[0] == "r":
                self.add(env, f.bitcast(p, to))
        elif k == "sel":
            c = f.icmp("ne", f.call(self.nd, []), ic(0))
            self.add(env, f.select(c, self.ptr(env, ty), self.ptr(env, ty)))
        elif k == "call" and self.callees:
            g = r.choice(self.callees)
            if g is f:
                c = f.icmp("ne", f.call(self.nd, []), ic(0))
                bs = [f.block("rec"), f.block("norec")]
                f.cbr(c, *bs)
                f.at(bs[0])
                e = {t: list(v) for t, v in env.items()}
                f.call(g, [self.ptr(e, p.ty) for p in g.params])
                f.br(bs[1])
                f.at(bs[1])
                return
            v = f.call(g, [self.ptr(env, p.ty) for p in g.params])
            if g.ret != "void":
                self.add(env, v)
        elif k == "fcall" and self.leaf:
            fp = self.ptr(env, FP)
            if fp.m[0] != "0":
                f.call(fp, [self.ptr(env, "i32*")], fnty=None) if fp.m[0] == "r" else f.call(self.leaf[0], [self.ptr(env, "i32*")])
        elif k == "fslot" and self.leaf:
            s = self.gl.get(FP + "*") and r.random() < .4 and self.gl[FP + "*"][0] or f.alloca(FP)
            f.store(self.ptr(env, FP), s)
            if r.random() < .7:
                self.add(env, f.load(s))
        elif k == "ext":
            p = self.ptr(env, "i8*")
            f.call(self.ext, [p])
        elif k == "arr":
            a = f.alloca("[3 x i32]", 3)
            for n in r.sample(range(3), 2):
                self.add(env, f.gep(a, f"i64 0, i64 {n}", "i32*", off=n))
        elif k == "st":
            a = f.alloca("{ i32*, i32* }", 2)
            q = [f.gep(a, f"i32 0, i32 {n}", "i32**", off=n) for n in (0, 1)]
            for x in q:
                f.store(self.ptr(env, "i32*"), x)
                self.add(env, x)
        elif k in ("if", "sw") and depth < 2:
            c = f.icmp("ne", f.call(self.nd, []), ic(0))
            b = [f.block("t"), f.block("e"), f.block("j")]
            f.cbr(c, b[0], b[1])
            ins = []
            for x in b[:2]:
                f.at(x)
                e = {t: list(v) for t, v in env.items()}
                self.block(e, depth + 1)
                ins.append((self.ptr(e, ty), f.cur))
                f.br(b[2])
            f.at(b[2])
            self.add(env, f.phi(ty, ins))
        elif k == "loop" and depth < 2:
            e0 = self.ptr(env, ty)
            pre = f.cur
            h, bd, out = f.block("h"), f.block("bd"), f.block("out")
            f.br(h)
            f.at(h)
            ph = f.phi(ty, [(e0, pre), (e0, pre)])
            c = f.icmp("ne", f.call(self.nd, []), ic(0))
            f.cbr(c, bd, out)
            f.at(bd)
            e = {t: list(v) for t, v in env.items()}
            e.setdefault(ty, []).append(ph)
            self.block(e, depth + 1)
            nx = self.ptr(e, ty)
            st = ph.st
            st["a"][1], st["x"][1] = nx, f.cur
            st["txt"] = f"{st['name']} = phi {ty} [ {e0.txt}, %{pre.name} ], [ {nx.txt}, %{f.cur.name} ]"
            f.br(h)
            f.at(out)
            env.setdefault(ty, []).append(ph)

    def block(self, env, depth):
        n = self.rng.randint(1, 4) if depth else self.left
        for _ in range(n):
            if self.left <= 0 and depth:
                break
            self.left -= 1
            self.stmt(env, depth)


def dominators(code):
    """block -> blocks that dominate it"""
    bs = sorted({s["b"] for s in code})
    first = {}
    for s in code:
        first.setdefault(s["b"], s)
    succ = {b: set() for b in bs}
    for s in code:
        if s["t"]:
            succ[s["b"]] |= {code[x - 1]["b"] for x in s["s"]}
    dom = {b: set(bs) for b in bs}
    dom[bs[0]] = {bs[0]}
    ch = True
    while ch:
        ch = False
        for b in bs[1:]:
            ps = [dom[p] for p in bs if b in succ[p]]
            n = ({b} | set.intersection(*ps)) if ps else {b}
            if n != dom[b]:
                dom[b], ch = n, True
    return [sorted(dom[b]) for b in bs]


def gen(rng, maxlen=90):
    while True:
        g = G(rng)
        p = g.m.finish(g.main)
        if sum(len(f["code"]) for f in p["funs"]) <= maxlen:
            break
    for f in p["funs"]:
        f["dom"] = dominators(f["code"]) if f["code"] else []
    # the globals and functions a function mentions (also through initializers)
    for f in p["funs"]:
        todo = [tuple(o[:2]) for s in f["code"] for k, o in enumerate(s["a"]) if o[0] in "gf" and not (s["op"] == "call" and k == 0)]
        seen = set()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if o[0] == "g":
                todo += [tuple(c[:2]) for c in p["globs"][o[1] - 1] if c[0] in "gf"]
        f["gs"] = sorted(n for k, n in seen if k == "g")
        f["fs"] = sorted(n for k, n in seen if k == "f")
    p["ir"] = g.m.text()
    p["pa"] = rng.choice(["cflanders", "cflanders", "cflsteens", "basic"])
    p["lazy"] = rng.random() < .6
    return p


def history(rng, p, load):
    """a sequence of operations on an object and another one it may be merged with"""
    h = []
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(["intro", "intro", "ointro", "merge", "ask", "ask", "snap", "osnap"] + ["reload"] * (5 if load else 0))
        o = dict(op=k, a=0, b=0, via=0)
        if k in ("intro", "ointro", "ask"):
            o.update(a=rng.randrange(1000), b=rng.randrange(1000))
        if k == "reload":
            o["via"] = rng.randrange(3)
        h.append(o)
    h.append(dict(op="snap", a=0, b=0, via=0))
    return h
