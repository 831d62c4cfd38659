"""Random programs over integer variables for the linear constant analysis (C13)."""
from mini import Mod, Fn, V, ic, executions


class Gen:
    def __init__(self, rng, acyclic=False, simple=False):
        self.rng, self.acyclic, self.simple = rng, acyclic, simple
        self.m = Mod("lca", nd=[0, 1] if acyclic else rng.choice([[0, 1], [0, 3], [-2, 5], [1]]))
        m = self.m
        self.nondet = Fn(m, "nondet", "i32", [], decl=True, kind="nondet")
        self.nondetb = Fn(m, "coin", "i32", [], decl=True, kind="nondet")
        self.scan = Fn(m, "scan", "void", [("i32*", "p")], decl=True, kind="scan")
        self.sink = Fn(m, "print", "void", [("i32", "p")], decl=True, kind="none")
        self.scanro = Fn(m, "show", "void", [("i32*", "p", "readonly")], decl=True, kind="none")
        self.intr = {}
        self.globs = []
        for k in range(rng.choice([0, 0, 1, 2])):
            ty = rng.choice(["i32", "i32", "i8"])
            n = rng.randint(-3, 9)
            self.globs.append(m.glob(f"g{k}", ty, str(n), [ic(n, ty)]))
        nf = rng.choice([0, 1, 1, 2, 3])
        self.fns = []
        sigs = []
        for k in range(nf):
            ps = []
            for j in range(rng.randint(0, 3)):
                ps.append((rng.choice(["i32", "i32", "i8", "i32*", "i32*"]), f"p{j}"))
            sigs.append((rng.choice(["i32", "i32", "void", "i8"]), ps, [rng.random() < .3 for _ in ps]))
        for k, (ret, ps, arr) in enumerate(sigs):
            f = Fn(m, f"f{k}", ret, ps)
            f.arr = arr
            self.fns.append(f)
        self.main = Fn(m, "main", "i32", [])
        self.main.arr = []
        for f in self.fns + [self.main]:
            self.body(f)

    def intrinsic(self, name, ty):
        key = f"llvm.{name}.{ty}"
        if key not in self.intr:
            ret = "{%s, i1}" % ty if "with.overflow" in name else ty
            self.m.tail += f"declare {ret} @{key}({ty}, {ty})\n"
            self.intr[key] = ret
        return key, self.intr[key]

    def const(self, ty):
        r = self.rng
        return ic(r.choice([0, 1, 2, 3, 5, 7, -1, -4, 12]) if r.random() < .8 or ty == "i32" else r.choice([100, 127, -128, 64]), ty)

    def body(self, f):
        r = self.rng
        self.f = f
        self.loop = 0
        self.callable = [g for g in self.fns if self.fns.index(g) > (self.fns.index(f) if f in self.fns else -1) or (not self.acyclic and r.random() < .25)]
        self.vars, self.arrs, self.ptrs = [], [], []
        for k in range(r.randint(1, 3)):
            self.vars.append(f.alloca(r.choice(["i32", "i32", "i32", "i8"])))
        if not self.simple and r.random() < .35:
            self.arrs.append((f.alloca("[2 x i32]", 2), "i64"))
        if not self.simple and r.random() < .2:
            self.arrs.append((f.alloca("{i32, i32}", 2), "i32"))
        self.ints = []
        for p, a in zip(f.params, f.arr):
            if p.ty.endswith("*"):
                self.ptrs.append((p, a))
            elif r.random() < .5:
                s = f.alloca(p.ty)
                f.store(p, s)
                self.vars.append(s)
            else:
                self.ints.append(p)
        for v in self.vars:
            if v.st["op"] == "alloca" and r.random() < .7 and not any(s["op"] == "store" and s["a"][1] is v for s in f.cur.stmts):
                f.store(self.const(v.ty[:-1]), v)
        self.stmts(r.randint(2, 5), 2)
        if not f.cur.closed:
            if f.ret == "void":
                f.retv()
            else:
                f.retv(self.const(f.ret) if r.random() < .3 else self.expr(f.ret, 1))

    def lvals(self, ty=None):
        L = [v for v in self.vars + self.globs if ty in (None, v.ty[:-1])]
        L += [p for p, a in self.ptrs if ty in (None, "i32")]
        return L

    def elem(self):
        """a freshly computed element address"""
        r = self.rng
        c = [("a", x) for x in self.arrs] + [("p", p) for p, a in self.ptrs if a]
        if not c:
            return None
        k, x = r.choice(c)
        if k == "a":
            i = r.randint(0, 1)
            return self.f.gep(x[0], f"i64 0, {x[1]} {i}" if x[1] == "i32" else f"i64 0, i64 {i}", "i32*", i)
        return self.f.gep(x, "i64 1", "i32*", 1)

    def conv(self, v, ty):
        if v.ty == ty:
            return v
        a, b = self.m.width(v.ty), self.m.width(ty)
        return self.f.conv("trunc" if a > b else self.rng.choice(["sext", "zext"]), v, ty)

    def atom(self, ty):
        r = self.rng
        k = r.random()
        L = self.lvals(ty)
        if k < .2 or not L:
            cand = [i for i in self.ints if i.ty == ty]
            return r.choice(cand) if cand and r.random() < .6 else self.const(ty)
        if k < .3:
            e = self.elem()
            if e:
                return self.conv(self.f.load(e), ty)
        return self.f.load(r.choice(L))

    def expr(self, ty, d):
        r, f = self.rng, self.f
        k = r.random()
        if k < .35 or d == 0:
            return self.atom(ty)
        if k < .8:
            a = self.atom(ty)
            lin = r.random() < .8
            b = self.const(ty) if lin else self.atom(ty)
            ops = ["add", "add", "sub", "sub", "mul", "sdiv", "srem", "udiv", "urem", "and", "or", "xor", "shl"]
            o = r.choice(ops[:4] if self.loop and ty == "i32" else ops)
            if ty == "i32" and o in ("udiv", "urem"):
                o = "sdiv"
            if lin and r.random() < .25:
                a, b = b, a
            return f.bin(o, a, b)
        if k < .87 and not self.simple:
            t2 = "i8" if ty == "i32" else "i32"
            return self.conv(self.expr(t2, d - 1), ty)
        if k < .89 and not self.simple:
            return f.select(self.cond(), self.atom(ty), self.atom(ty))
        if k < .95 and not self.simple:
            a, b = self.atom("i8"), self.const("i8")
            if r.random() < .3:
                a, b = b, a
            if r.random() < .5:
                o = r.choice(["sadd", "ssub", "uadd", "usub"]) + ".sat"
                key, ret = self.intrinsic(o, "i8")
                v = f.emit("bin", f"call i8 @{key}(i8 {a.txt}, i8 {b.txt})", [a, b], ty="i8", o=o, w=8)
            else:
                o = r.choice(["add", "sub", "mul"])
                key, ret = self.intrinsic(f"s{o}.with.overflow", "i8")
                t = f.emit("ovf", f"call {ret} @{key}(i8 {a.txt}, i8 {b.txt})", [a, b], ty=ret, o=o, w=8)
                i = r.choice([0, 0, 1])
                v = f.emit("extract", f"extractvalue {ret} {t.txt}, {i}", [t], ty=["i8", "i1"][i], x=[i])
                if i:
                    v = f.conv("sext", v, "i8")
            return self.conv(v, ty)
        return self.callx(ty) or self.atom(ty)

    def callx(self, ty):
        """a call to a defined function, its result converted to ty (None: no value)"""
        r = self.rng
        if not self.callable:
            return None
        g = r.choice([g for g in self.callable if ty is None or g.ret != "void"] or [None])
        if g is None:
            return None
        args, used = [], []
        for t, arr in zip(g.ptys, g.arr):
            if t == "i32*":
                if arr:
                    c = [p for p, a in self.ptrs if a and p not in used]
                    ars = [x for x in self.arrs if x[0] not in used]
                    if ars and (not c or r.random() < .6):
                        x = r.choice(ars)
                        used.append(x[0])
                        args.append(x)
                        continue
                else:
                    c = [v for v in self.vars if v.ty == "i32*" and v not in used] + [p for p, a in self.ptrs if p not in used]
                if not c:
                    return None
                v = r.choice(c)
                used.append(v)
                args.append(v)
            else:
                args.append(self.const(t) if r.random() < .4 else self.expr(t, 1))
        # element addresses are computed right before they are used
        args = [self.f.gep(x[0], "i64 0, i64 0" if x[1] == "i64" else "i64 0, i32 0", "i32*", 0) if isinstance(x, tuple) else x for x in args]
        v = self.f.call(g, args)
        return None if ty is None else self.conv(v, ty)

    def cond(self):
        return self.f.icmp("ne", self.f.call(self.nondetb, []), ic(self.m.nd[0]))

    def stmts(self, n, depth):
        for _ in range(n):
            if self.f.cur.closed:
                return
            self.stmt(depth)

    def diamond(self):
        """the same variable gets similar terms over the same value on two paths"""
        r, f = self.rng, self.f
        v = r.choice(self.lvals())
        ty = v.ty[:-1]
        ints = [i for i in self.ints if i.ty == ty]
        src = r.choice(ints) if ints and r.random() < .7 else r.choice(self.lvals(ty))
        hoist = f.load(src) if src not in ints and r.random() < .6 else None
        o = r.choice(["add", "sub", "mul"] if not (self.loop and ty == "i32") else ["add", "sub"])
        c = [r.choice([0, 1, 1, 2, 3]) for _ in range(2)]
        swap = o != "sub" and r.random() < .3
        f.cbr(self.cond(), *(bs := [f.block("then"), f.block("else")]))
        end = f.block("end")
        for b, n in zip(bs, c):
            f.at(b)
            x = src if src in ints else hoist or f.load(src)
            if n or r.random() < .3:
                x = f.bin(o, *((ic(n, ty), x) if swap else (x, ic(n, ty))))
            if r.random() < .2 and o != "mul":
                x = f.bin(o, x, ic(r.choice([1, 2]), ty))
            f.store(x, v)
            f.br(end)
        f.at(end)

    def stmt(self, depth):
        r, f = self.rng, self.f
        k = r.random()
        if r.random() < .1 and depth:
            self.diamond()
            return
        if k < .5 or depth == 0:
            L = self.lvals()
            if r.random() < .15 and not self.simple:
                e = self.elem()
                if e:
                    f.store(self.const("i32") if r.random() < .4 else self.expr("i32", 1), e)
                    return
            v = r.choice(L)
            ty = v.ty[:-1]
            f.store(self.const(ty) if r.random() < .35 else self.expr(ty, 2), v)
        elif k < .58:
            L = [v for v in self.vars if v.ty == "i32*"] + [p for p, a in self.ptrs]
            if L and not self.simple:
                f.call(r.choice([self.scan, self.scan, self.scanro]), [r.choice(L)])
            else:
                f.call(self.sink, [self.expr("i32", 1)])
        elif k < .7:
            if not self.callx(None) and r.random() < .5:
                f.call(self.sink, [self.atom("i32")])
        elif k < .9 or self.acyclic:
            c = self.cond()
            if r.random() < .15 and not self.acyclic:
                bs = [f.block("case") for _ in range(3)]
                f.switch(f.call(self.nondetb, []), bs[0], [(self.m.nd[0], bs[1]), (99, bs[2])])
            else:
                bs = [f.block("then"), f.block("else")]
                f.cbr(c, *bs)
            end = f.block("end")
            open_ = False
            phi = None if self.simple or r.random() < .7 else r.choice(["i32", "i8"])
            inc = []
            for b in bs:
                f.at(b)
                self.stmts(r.randint(0, 2), depth - 1)
                if not f.cur.closed:
                    if r.random() < .08:
                        f.retv() if f.ret == "void" else f.retv(self.const(f.ret))
                    else:
                        if phi:
                            v = self.atom(phi)
                            inc.append((v, f.cur))
                        f.br(end)
                        open_ = True
            if not open_:
                f.blocks.remove(end)
                return
            f.at(end)
            if inc:
                v = f.phi(phi, inc)
                L = self.lvals(phi)
                if L:
                    f.store(v, r.choice(L))
                else:
                    self.ints.append(v) if depth == 2 else None
        else:
            h, b, e = f.block("head"), f.block("body"), f.block("exit")
            f.br(h)
            f.at(h)
            f.cbr(self.cond(), b, e)
            f.at(b)
            self.loop += 1
            self.stmts(r.randint(1, 2), depth - 1)
            self.loop -= 1
            if not f.cur.closed:
                f.br(h)
            f.at(e)


def gen(rng, **kw):
    while True:
        g = Gen(rng, **kw)
        P = g.m.finish(g.main)
        if not kw.get("acyclic") or executions(P) <= 64:
            break
    P["ir"] = g.m.text()
    return P
