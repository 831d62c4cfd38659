"""Random programs with sources, sinks and sanitizers (C14)."""
from mini import Mod, Fn, ic, executions


# library functions the analysis has summaries for: parameters, copied cell (from, to), appends?, result
def _lib():
    L = {}
    for n in "strcpy stpcpy wcscpy".split():
        L[n] = ("i32* i32*", [2, 1], False, "arg", 1)
    for n in "strncpy stpncpy wcsncpy memcpy memmove mempcpy wmemcpy wmemmove wmempcpy".split():
        L[n] = ("i32* i32* i32", [2, 1], False, "arg", 1)
    for n in "strcat wcscat".split():
        L[n] = ("i32* i32*", [2, 1], True, "arg", 1)
    for n in "strncat wcsncat".split():
        L[n] = ("i32* i32* i32", [2, 1], True, "arg", 1)
    L["memccpy"] = ("i32* i32* i32 i32", [2, 1], False, "arg", 1)
    L["bcopy"] = ("i32* i32* i32", [1, 2], False, "no", 0)
    for n in "strdup wcsdup".split():
        L[n] = ("i32*", [], False, "dup", 1)
    L["strndup"] = ("i32* i32", [], False, "dup", 1)
    for n in "strrchr wcschr wcsrchr strchrnul".split():
        L[n] = ("i32* i32", [], False, "arg", 1)
    for n in "strstr strpbrk wcsstr wcspbrk".split():
        L[n] = ("i32* i32*", [], False, "arg", 1)
    for n in "memchr memrchr wmemchr".split():
        L[n] = ("i32* i32 i32", [], False, "arg", 1)
    for n in "strtol strtoul strtoll strtoull strtoimax strtoumax wcstol wcstoul".split():
        L[n] = ("i32* i32* i32", [], False, "cell", 1)
    for n in "abs labs toupper tolower towupper towlower".split():
        L[n] = ("i32", [], False, "val", 1)
    return L


LIB = _lib()


class Gen:
    """precise: no loops, recursion, arrays, aliases, globals (on such programs the analysis has to be exact)"""
    def __init__(self, rng, precise=False):
        self.rng, self.precise = rng, precise
        self.m = m = Mod("taint", nd=[0, 1])
        r = rng
        self.coin = Fn(m, "coin", "i32", [], decl=True, kind="nondet")
        self.ext = []   # functions of the configuration: (Fn, dict)
        self.extern("src", "i32", [], rsrc=True)
        self.extern("rd", "i32", [("i32*", "p")], src=[1])
        if r.random() < .5:
            self.extern("rd2", "void", [("i32", "n"), ("i32*", "p"), ("i32*", "q")], src=r.choice([[2], [3], [2, 3]]))
        self.extern("snk", "void", [("i32", "a")], snk=[1])
        self.extern("out", "void", [("i32*", "p")], snk=[1])
        if r.random() < .5:
            self.extern("out2", "i32", [("i32", "n"), ("i32*", "p"), ("i32", "q")], snk=r.choice([[1], [2], [3], [2, 3], [1, 2, 3]]))
        if r.random() < .5:
            self.extern("chk", "void", [("i32*", "p")], san=[1])
        if r.random() < .3:
            self.extern("io", "i32", [("i32*", "p"), ("i32*", "q")], src=[1], snk=[2], rsrc=r.random() < .5)
        self.extern("nop", "i32", [("i32", "p")])
        self.lib = []
        for n in r.sample(sorted(LIB), 0 if precise or r.random() < .5 else 3):
            ps, cp, app, ret, k = LIB[n]
            if ret == "arg" and not cp and r.random() < .7:
                continue
            if ret == "arg" and cp and r.random() < .8:
                ret = "no"      # (the alias information of LLVM takes a returned pointer as an alias of all arguments)
            f = Fn(m, n, "i32*" if ret in ("arg", "dup") else "void" if ret == "no" else "i32", [(t, f"p{j}") for j, t in enumerate(ps.split())], decl=True, kind="lib")
            f.lib = dict(cp=cp, app=app, ret=ret, k=k)
            self.lib.append(f)
        self.globs = []
        for k in range(0 if precise else r.choice([0, 0, 1, 2])):
            n = r.randint(0, 9)
            self.globs.append(m.glob(f"g{k}", "i32", str(n), [ic(n)]))
        self.o0 = r.random() < .5     # parameters are stored in variables, as clang does
        self.fns, self.called = [], []
        for k in range(r.choice([0, 1, 1, 2, 3])):
            ps = [(r.choice(["i32", "i32*"]), f"p{j}") for j in range(r.randint(0, 3))]
            self.fns.append(Fn(m, f"f{k}", r.choice(["i32", "i32", "void"] + ([] if precise else ["i32*"])), ps))
        self.main = Fn(m, "main", "i32", [])
        for f in self.fns + [self.main]:
            self.body(f)

    def extern(self, name, ret, ps, **c):
        f = Fn(self.m, name, ret, ps, decl=True, kind="cfg")
        f.cfg = dict(src=[], snk=[], san=[], rsrc=False)
        f.cfg.update(c)
        self.ext.append(f)

    def body(self, f):
        r = self.rng
        self.f = f
        pos = self.fns.index(f) if f in self.fns else -1
        self.callable = [g for k, g in enumerate(self.fns) if k > pos or (not self.precise and r.random() < .2)]
        size = r.randint(1, 3) if f is not self.main and r.random() < .6 else r.randint(3, 8)   # tiny helpers, too
        self.vars = [f.alloca("i32") for _ in range(r.randint(0 if size < 3 and len(f.params) else 1, 3))]
        self.slots, self.depth, self.focus = [], 0, None      # i32**
        self.ptrs, self.ints = [], []
        if not self.precise and r.random() < .3:
            a = f.alloca("[2 x i32]", 2)
            self.ptrs += [f.gep(a, f"i64 0, i64 {i}", "i32*", i) for i in range(2)]
        if not self.precise and r.random() < .3:
            a = f.alloca("{ i32, i32 }", 2)
            self.ptrs += [f.gep(a, f"i32 0, i32 {i}", "i32*", i) for i in range(2)]
        for p in f.params:
            if not (self.precise and p.ty == "i32*") and (self.o0 or r.random() < .4):
                s = f.alloca(p.ty)
                f.store(p, s)
                (self.vars if p.ty == "i32" else self.slots).append(s)
            else:
                (self.ints if p.ty == "i32" else self.ptrs).append(p)
        for v in list(self.vars):
            if v.st["op"] == "alloca" and r.random() < .8:
                f.store(ic(r.randint(0, 3)), v)
        if not self.precise and r.random() < .4:
            s = f.alloca("i32*")
            f.store(self.ptr(), s)
            self.slots.append(s)
        E = {e.name: e for e in self.ext}
        if f is self.main:
            for v in self.vars:
                if r.random() < .4:
                    f.call(E["rd"], [v])
        self.stmts(size, 2)
        if not f.cur.closed:
            for v in self.vars + self.ptrs:     # (after blocks that returned)
                if r.random() < (.5 if f is self.main else .15):
                    f.call(E["out"], [v])
            self.ret()

    def ret(self):
        f = self.f
        if f.ret == "void":
            f.retv()
        elif f.ret == "i32*":
            f.retv(self.ptr())
        else:
            f.retv(self.val(1))

    def ptr(self):
        r = self.rng
        c = [("p", p) for p in self.vars + self.globs + self.ptrs] + [("s", s) for s in self.slots] * 2
        if not c:
            return self.f.alloca("i32")
        if self.focus is None or r.random() < .1:   # most statements are about the same memory
            self.focus = r.choice(c)
        k, p = self.focus if r.random() < .5 else r.choice(c)
        if k == "s":
            p = self.f.load(p)
            if not self.precise and r.random() < .2 and not self.depth:
                self.ptrs.append(p)
        return p

    def val(self, d=2):
        r, f = self.rng, self.f
        k = r.random()
        if k < .15:
            return r.choice(self.ints) if self.ints else ic(r.randint(0, 3))
        if k < .55 or d == 0:
            return f.load(self.ptr())
        if k < .65:
            v = f.conv(r.choice(["sext", "zext"]), f.conv("trunc", self.val(d - 1), "i8"), "i32")
        elif k < .69 and not self.precise:
            v = self.aggregate(d)
        elif k < .73 and not self.precise:
            v = f.select(self.cond(), self.val(d - 1), self.val(d - 1))
        elif k < .85:
            v = self.callf([g for g in self.callable + self.lib if g.ret == "i32"]) or self.callf([g for g in self.ext if g.ret == "i32"])
        else:
            v = self.callf([g for g in self.ext if g.ret == "i32"])
        if not self.depth and r.random() < .5:
            self.ints.append(v)
        return v

    def aggregate(self, d):
        """a value goes through an aggregate (SSA: the model copies the inserted value)"""
        r, f = self.rng, self.f
        n = r.choice([1, 2, 2, 3])
        ty = "{ " + ", ".join(["i32"] * n) + " }"
        agg, vs = "undef", {}
        for _ in range(r.randint(1, n + 1)):
            i = r.randrange(n)
            vs[i] = self.val(d - 1)
            agg = f.emit("nop", f"insertvalue {ty} {agg}, i32 {vs[i].txt}, {i}", ty=ty).txt
        i = r.choice(sorted(vs))
        return f.emit("copy", f"extractvalue {ty} {agg}, {i}", [vs[i]], ty="i32")

    def callf(self, fs):
        if not fs:
            return None
        g = self.rng.choice(fs)
        if self.precise and "i32*" in g.ptys and g in self.fns:   # may-aliases of a parameter: one
            if g in self.called or g.ptys.count("i32*") > 1:
                return None
            self.called.append(g)
        return self.f.call(g, [self.ptr() if t == "i32*" else self.val(1) for t in g.ptys])

    def cond(self):
        return self.f.icmp("ne", self.f.call(self.coin, []), ic(0))

    def stmts(self, n, depth):
        for _ in range(n):
            if not self.f.cur.closed:
                self.stmt(depth)

    def stmt(self, depth):
        r, f = self.rng, self.f
        k = r.random()
        if self.lib and r.random() < .3:
            v = self.callf(self.lib)
            if v and v.ty == "i32*" and not self.depth:
                self.ptrs.append(v)
        elif k < .3 or depth == 0:
            f.store(self.val(2), self.ptr())
        elif k < .34 and self.slots and not self.precise:
            f.store(self.ptr(), r.choice(self.slots))
        elif k < .52:
            self.callf(self.ext)
        elif k < .62:
            self.callf([g for g in self.ext if g.cfg["snk"]])
        elif k < .74:
            v = self.callf(self.callable)
            if v and v.ty == "i32*" and not self.depth:
                self.ptrs.append(v)
        elif k < .92 or self.precise:
            c = self.cond()
            bs = [f.block("then"), f.block("else")]
            f.cbr(c, *bs)
            end = f.block("end")
            phi, inc, open_ = not self.precise and r.random() < .35, [], False
            pty = r.choice(["i32", "i32", "i32*"])
            self.depth += 1
            for b in bs:
                f.at(b)
                self.stmts(r.randint(0, 2), depth - 1)
                if not f.cur.closed:
                    if r.random() < .08:
                        self.ret()
                        continue
                    if phi:
                        v = self.val(1) if pty == "i32" else self.ptr()
                        inc.append((v, f.cur))
                    f.br(end)
                    open_ = True
            self.depth -= 1
            if not open_:
                f.blocks.remove(end)
                return
            f.at(end)
            if inc:
                v = f.phi(pty, inc)
                if pty == "i32*":
                    if not self.depth:
                        self.ptrs.append(v)
                elif r.random() < .5 and not self.depth:
                    self.ints.append(v)
                else:
                    f.store(v, self.ptr())
        else:
            h, b, e = f.block("head"), f.block("body"), f.block("exit")
            f.br(h)
            f.at(h)
            f.cbr(self.cond(), b, e)
            f.at(b)
            self.depth += 1
            self.stmts(r.randint(1, 3), depth - 1)
            self.depth -= 1
            if not f.cur.closed:
                f.br(h)
            f.at(e)


class LibGen(Gen):
    """every library function once, on tainted memory"""
    def __init__(self, rng, name, ret):
        self.rng = rng
        self.m = m = Mod("taint", nd=[0, 1])
        self.ext, ps = [], LIB[name][0].split()
        _, cp, app, kind, k = LIB[name]
        self.extern("src", "i32", [], rsrc=True)
        self.extern("snk", "void", [("i32", "a")], snk=[1])
        self.extern("out", "void", [("i32*", "p")], snk=[1])
        src, snk, out = self.ext
        if kind == "arg" and cp and not ret:
            kind = "no"
        f = Fn(m, name, "i32*" if kind in ("arg", "dup") else "void" if kind == "no" else "i32", [(t, f"p{j}") for j, t in enumerate(ps)], decl=True, kind="lib")
        f.lib = dict(cp=cp, app=app, ret=kind, k=k)
        self.lib = [f]
        self.main = F = Fn(m, "main", "i32", [])
        vs = [F.alloca("i32") for _ in ps]
        taint = rng.choice([0, 1]) if cp and app else (cp[0] if cp else k) - 1
        for j, v in enumerate(vs):
            F.store(F.call(src, []) if j == taint else ic(j), v)
        r = F.call(f, [v if t == "i32*" else F.load(v) for t, v in zip(ps, vs)])
        if f.ret == "i32":
            F.call(snk, [r])
        elif f.ret == "i32*":
            F.call(out, [r])
        for v in vs:
            F.call(snk, [F.load(v)]) if rng.random() < .5 else F.call(out, [v])
        F.retv(ic(0))


def finish(g):
    P = g.m.finish(g.main)
    cfg = {f.name: f.cfg for f in g.ext}
    for F in P["funs"]:
        F.update(cfg.get(F["name"], dict(src=[], snk=[], san=[], rsrc=False)))
        F["lib"] = next((f.lib for f in g.lib if f.name == F["name"]), dict(cp=[], app=False, ret="no", k=0))
    P["ir"] = g.m.text()
    P["config"] = [dict(name=n, **c) for n, c in cfg.items()]
    return P


def lib_progs(rng):
    return [finish(LibGen(rng, n, ret)) for n in LIB for ret in (False, True)]


def gen(rng, **kw):
    while True:
        g = Gen(rng, **kw)
        if not kw.get("precise") or executions(g.m.finish(g.main)) <= 256:
            return finish(g)
