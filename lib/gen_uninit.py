"""Random programs with uninitialized variables (C15)."""
from mini import Mod, Fn, V, ic, undef, null, executions


class Gen:
    """precise: no loops, recursion, arrays, phis, selects, globals and function pointers
    (on such programs the analysis has to be exact)"""
    def __init__(self, rng, precise=False):
        self.rng, self.precise = rng, precise
        self.m = m = Mod("uninit", nd=[0, 1])
        self.coin = Fn(m, "coin", "i32", [], decl=True, kind="nondet")
        self.scan = Fn(m, "scan", "void", [("i32*", "p")], decl=True, kind="scan")
        self.sink = Fn(m, "print", "void", [("i32", "p")], decl=True, kind="none")
        self.globs = []
        if not precise:
            for k in range(rng.choice([0, 0, 1, 2])):
                n = rng.randint(0, 9)
                self.globs.append(m.glob(f"g{k}", "i32", str(n), [ic(n)]))
        self.fns = []
        for k in range(rng.choice([0, 1, 1, 2, 3])):
            ps = [(rng.choice(["i32", "i32", "i32*", "i32*"]), f"p{j}") for j in range(rng.randint(0, 3))]
            self.fns.append(Fn(m, f"f{k}", rng.choice(["i32", "i32", "void"]), ps))
        self.main = Fn(m, "main", "i32", [])
        for f in self.fns + [self.main]:
            self.body(f)

    def body(self, f):
        r = self.rng
        self.f = f
        pos = self.fns.index(f) if f in self.fns else -1
        self.callable = [g for k, g in enumerate(self.fns) if k > pos or (not self.precise and r.random() < .25)]
        self.vars = [f.alloca("i32") for _ in range(r.randint(1, 4))]
        self.arrs = [f.alloca("[2 x i32]", 2)] if not self.precise and r.random() < .35 else []
        self.tvars = [f.alloca(r.choice(["float", "double", "i64", "i8", "half", "fp128", "i32*"])) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        self.ptrs, self.ints = [], []
        for p in f.params:
            if p.ty == "i32*":
                self.ptrs.append(p)
            elif r.random() < .5:
                s = f.alloca("i32")
                f.store(p, s)
                self.vars.append(s)
            else:
                self.ints.append(p)
        self.fp = {}
        if not self.precise and r.random() < .4:
            for g in self.callable[:2]:
                s = f.alloca(g.ty() + "*")
                f.store(g.ref(), s)
                self.fp[g] = s
        for v in self.vars:
            if v.st["op"] == "alloca" and r.random() < .35:
                f.store(self.const(), v)
        for v in self.tvars:
            if r.random() < .35:
                f.store(self.to(self.const(), v.ty[:-1]), v)
        self.stmts(r.randint(2, 6), 2)
        if not f.cur.closed:
            if f.ret == "void":
                f.retv()
            elif not self.precise and r.random() < .06:
                f.retv(undef("i32"))
            else:
                f.retv(self.const() if r.random() < .3 else self.expr(1))

    def const(self):
        return ic(self.rng.choice([0, 1, 2, 3, 5]))

    def to(self, v, ty):
        """v: i32 value or None; the value of type ty to store"""
        if ty == "i32*":
            return null(ty)      # (pointers to variables would be aliases)
        return self.f.conv({"i64": "sext", "i8": "trunc"}.get(ty, "sitofp"), v, ty)

    def tload(self):
        f, v = self.f, self.rng.choice(self.tvars)
        x = f.load(v)
        if x.ty == "i32*":
            return f.conv("zext", f.icmp("eq", x, null(x.ty)), "i32")
        if x.ty[0] != "i" and self.rng.random() < .5:
            x = f.emit("bin", f"fadd {x.ty} {x.txt}, {x.txt}", [x, x], ty=x.ty, o="add", w=32)
        return f.conv({"i64": "trunc", "i8": "sext"}.get(x.ty, "fptosi"), x, "i32")

    def lvals(self):
        return self.vars + self.globs + self.ptrs

    def elem(self):
        if not self.arrs:
            return None
        i = self.rng.randint(0, 1)
        return self.f.gep(self.rng.choice(self.arrs), f"i64 0, i64 {i}", "i32*", i)

    def atom(self):
        r = self.rng
        k = r.random()
        if k < .2:
            return r.choice(self.ints) if self.ints and r.random() < .6 else (undef("i32") if not self.precise and r.random() < .1 else self.const())
        if k < .3:
            e = self.elem()
            if e:
                return self.f.load(e)
        if k < .42 and self.tvars:
            return self.tload()
        return self.f.load(r.choice(self.lvals()))

    def expr(self, d):
        r, f = self.rng, self.f
        k = r.random()
        if k < .45 or d == 0:
            return self.atom()
        if k < .75:
            return f.bin(r.choice(["add", "sub", "and", "or", "xor"]), self.atom(), self.const() if r.random() < .6 else self.atom())
        if k < .82:
            return f.conv(r.choice(["sext", "zext"]), f.conv("trunc", self.atom(), "i8"), "i32")
        if k < .88 and not self.precise:
            return f.select(self.cond(), self.atom(), self.atom())
        return self.callx(True) or self.atom()

    def callx(self, val):
        r = self.rng
        g = r.choice([g for g in self.callable if not val or g.ret != "void"] or [None])
        if g is None:
            return None
        args, used = [], []
        for t in g.ptys:
            if t == "i32*":
                c = [v for v in self.vars + self.ptrs if v not in used]
                if self.arrs and self.arrs[0] not in used and r.random() < .3:
                    used.append(self.arrs[0])
                    args.append(self.arrs[0])
                    continue
                if not c:
                    return None
                v = r.choice(c)
                used.append(v)
                args.append(v)
            else:
                args.append(self.const() if r.random() < .3 else (undef("i32") if not self.precise and r.random() < .06 else self.expr(1)))
        args = [self.f.gep(x, "i64 0, i64 0", "i32*", 0) if x in self.arrs else x for x in args]
        if g in self.fp and r.random() < .6:
            v = self.f.call(self.f.load(self.fp[g]), args)
        else:
            v = self.f.call(g, args)
        return v if val else True

    def cond(self):
        if not self.precise and self.rng.random() < .25:
            return self.f.icmp(self.rng.choice(["eq", "slt", "sgt"]), self.atom(), self.const())
        return self.f.icmp("ne", self.f.call(self.coin, []), ic(0))

    def stmts(self, n, depth):
        for _ in range(n):
            if self.f.cur.closed:
                return
            self.stmt(depth)

    def stmt(self, depth):
        r, f = self.rng, self.f
        k = r.random()
        if k < .4 or depth == 0:
            e = self.elem() if r.random() < .15 else None
            v = self.const() if r.random() < .4 else self.expr(2)
            if self.tvars and r.random() < .3:
                t = r.choice(self.tvars)
                f.store(self.to(v, t.ty[:-1]), t)
                return
            f.store(v, e or r.choice(self.lvals()))
        elif k < .5:
            f.call(self.scan, [r.choice(self.vars + self.ptrs)])
        elif k < .58:
            f.call(self.sink, [self.expr(1)])
        elif k < .74:
            self.callx(False)
        elif k < .92 or self.precise:
            c = self.cond()
            bs = [f.block("then"), f.block("else")]
            f.cbr(c, *bs)
            end = f.block("end")
            phi, inc, open_ = not self.precise and r.random() < .2, [], False
            for b in bs:
                f.at(b)
                self.stmts(r.randint(0, 2), depth - 1)
                if not f.cur.closed:
                    if r.random() < .08:
                        f.retv() if f.ret == "void" else f.retv(self.const())
                        continue
                    if phi:
                        v = undef("i32") if r.random() < .2 else self.atom()
                        inc.append((v, f.cur))
                    f.br(end)
                    open_ = True
            if not open_:
                f.blocks.remove(end)
                return
            f.at(end)
            if inc:
                f.store(f.phi("i32", inc), r.choice(self.lvals()))
        else:
            h, b, e = f.block("head"), f.block("body"), f.block("exit")
            f.br(h)
            f.at(h)
            f.cbr(self.cond(), b, e)
            f.at(b)
            self.stmts(r.randint(1, 2), depth - 1)
            if not f.cur.closed:
                f.br(h)
            f.at(e)


def gen(rng, **kw):
    while True:
        g = Gen(rng, **kw)
        P = g.m.finish(g.main)
        if not kw.get("precise") or executions(P) <= 256:
            break
    P["ir"] = g.m.text()
    return P
