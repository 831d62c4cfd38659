"""Programs of the fragment of LLVM IR that spec/MiniIR.tla gives a semantics:
a builder that emits the IR text (typed pointers, LLVM 14) and the TLA+ model
of a program side by side; one model statement per IR instruction."""


class V:
    """An operand: IR type and text, and its model (["r", n], ["c", n], ...)."""
    def __init__(self, ty, txt, m, const=None):
        self.ty, self.txt, self.m, self.const = ty, txt, m, const

    def __repr__(self):
        return f"{self.ty} {self.txt}"


def ic(n, ty="i32"):
    if ty == "i1":
        return V(ty, "true" if n else "false", ["c", -1 if n else 0, 0], n)
    return V(ty, str(n), ["c", n, 0], n)


def null(ty):
    return V(ty, "null", ["0", 0, 0])


def undef(ty):
    return V(ty, "undef", ["u", 0, 0])


class Block:
    def __init__(self, fn, name):
        self.fn, self.name, self.stmts, self.id = fn, name, [], 0

    @property
    def closed(self):
        return bool(self.stmts) and self.stmts[-1]["t"]


class Fn:
    def __init__(self, mod, name, ret, params, decl=False, kind="", size=0, attrs="", link=""):
        self.mod, self.name, self.ret, self.decl, self.kind, self.size = mod, name, ret, decl, kind, size
        self.pattrs = [p[2] if len(p) > 2 else "" for p in params]
        self.ptys = [p[0] for p in params]
        self.attrs, self.link = attrs, link
        self.blocks, self.cur, self.n = [], None, 0
        mod.funs.append(self)
        self.idx = len(mod.funs)
        self.params = [V(p[0], "%" + p[1], ["r", i + 1, 0]) for i, p in enumerate(params)]
        self.md = ""
        if not decl:
            self.cur = self.block("entry")

    def ty(self):
        return f"{self.ret} ({', '.join(self.ptys)})"

    def ref(self):
        return V(self.ty() + "*", "@" + self.qname(), ["f", self.idx, 0])

    def qname(self):
        return self.name if all(c.isalnum() or c in "._$" for c in self.name) else '"' + self.name + '"'

    def block(self, hint="b"):
        b = Block(self, f"{hint}{len(self.blocks)}")
        self.blocks.append(b)
        return b

    def at(self, b):
        # keep the textual order = the order in which blocks are filled
        self.blocks.remove(b)
        self.blocks.append(b)
        self.cur = b

    def emit(self, op, txt, a=(), ty="void", o="", x=(), w=0, t=False, s=None, dbg=""):
        """Append an instruction; returns its value. The register number is fixed by number()."""
        self.n += 1
        name = f"%v{self.n}"
        st = dict(op=op, o=o, a=list(a), x=list(x), w=w, t=t, to=s, name=name, ty=ty,
                  txt=(f"{name} = {txt}" if ty != "void" else txt))
        assert not self.cur.closed, "block is closed"
        self.cur.stmts.append(st)
        st["v"] = V(ty, name, ["r", None, 0])
        st["v"].st = st
        return st["v"]

    # ---- instructions ----
    def alloca(self, ty, cells=1, hint=None):
        return self.emit("alloca", f"alloca {ty}", ty=ty + "*", x=[cells])

    def store(self, v, p):
        assert p.ty == v.ty + "*", (v.ty, p.ty)
        return self.emit("store", f"store {v.ty} {v.txt}, {p.ty} {p.txt}", [v, p])

    def load(self, p):
        ty = p.ty[:-1]
        return self.emit("load", f"load {ty}, {p.ty} {p.txt}", [p], ty=ty, w=self.mod.width(ty))

    def bin(self, o, a, b, flags=""):
        return self.emit("bin", f"{o} {flags}{a.ty} {a.txt}, {b.txt}", [a, b], ty=a.ty, o=o, w=self.mod.width(a.ty))

    def icmp(self, o, a, b):
        return self.emit("icmp", f"icmp {o} {a.ty} {a.txt}, {b.txt}", [a, b], ty="i1", o=o)

    def conv(self, o, a, ty):
        return self.emit("conv", f"{o} {a.ty} {a.txt} to {ty}", [a], ty=ty, o=o, x=[self.mod.width(a.ty)], w=self.mod.width(ty))

    def bitcast(self, a, ty):
        return self.emit("copy", f"bitcast {a.ty} {a.txt} to {ty}", [a], ty=ty)

    def select(self, c, a, b):
        return self.emit("select", f"select i1 {c.txt}, {a.ty} {a.txt}, {b.ty} {b.txt}", [c, a, b], ty=a.ty)

    def phi(self, ty, inc):
        """inc: [(value, block)]"""
        return self.emit("phi", f"phi {ty} " + ", ".join(f"[ {v.txt}, %{b.name} ]" for v, b in inc), [v for v, _ in inc],
                         ty=ty, x=[b for _, b in inc])

    def gep(self, p, idx, rty, off=0, scale=0, dyn=None):
        """idx: IR text of the indices; the model adds off (+ scale * dyn)."""
        return self.emit("gep", f"getelementptr {p.ty[:-1]}, {p.ty} {p.txt}, {idx}", [p] + ([dyn] if dyn else []), ty=rty, x=[off, scale])

    def call(self, f, args, fnty=None, x=0):
        """f: a Fn or a function pointer value"""
        fv = f.ref() if isinstance(f, Fn) else f
        ret = fv.ty[:fv.ty.index(" (")]
        pre = "call "
        sig = ret
        return self.emit("call", f"{pre}{sig} {fv.txt}(" + ", ".join(f"{a.ty} {a.txt}" for a in args) + ")", [fv] + list(args), ty=ret,
                         x=[x or (f.size if isinstance(f, Fn) else 0)])

    def br(self, b):
        self.emit("br", f"br label %{b.name}", s=[b], t=True)

    def cbr(self, c, b1, b2):
        self.emit("cbr", f"br i1 {c.txt}, label %{b1.name}, label %{b2.name}", [c], s=[b1, b2], t=True)

    def switch(self, v, default, cases):
        self.emit("switch", f"switch {v.ty} {v.txt}, label %{default.name} [ " +
                  " ".join(f"{v.ty} {n}, label %{b.name}" for n, b in cases) + " ]", [v], x=[n for n, _ in cases],
                  s=[b for _, b in cases] + [default], t=True)

    def retv(self, v=None):
        self.emit("ret", f"ret {v.ty} {v.txt}" if v else "ret void", [v] if v else [], t=True, s=[])

    # ---- finishing ----
    def number(self):
        k = 0
        np = len(self.params)
        self.flat = []
        for i, b in enumerate(self.blocks):
            b.id = i + 1
            b.first = k + 1
            for st in b.stmts:
                k += 1
                st["pc"] = k
                st["b"] = b.id
                st["v"].m[1] = np + k
                self.flat.append(st)

    def text(self):
        ps = ", ".join(f"{t}{' ' + a if a else ''}" + ("" if self.decl else f" {p.txt}") for t, p, a in zip(self.ptys, self.params, self.pattrs))
        if self.decl:
            return f"declare {self.ret} @{self.qname()}({ps}){self.attrs}\n"
        out = f"define {self.link}{self.ret} @{self.qname()}({ps}){self.attrs}{self.md} {{\n"
        for b in self.blocks:
            out += f"{b.name}:\n" + "".join(f"  {s['txt']}\n" for s in b.stmts)
        return out + "}\n"

    def model(self):
        code = []
        for k, st in enumerate(self.flat):
            if st["t"]:
                succ = [b.first for b in st["to"]]
            else:
                succ = [st["pc"] + 1]
            xs = [b.id if isinstance(b, Block) else b for b in st["x"]]
            code.append(dict(op=st["op"], o=st["o"], a=[v.m for v in st["a"]], s=succ, b=st["b"], t=st["t"], x=xs, w=st["w"], ty=st["ty"]))
        return dict(name=self.name, np=len(self.params), code=code, decl=self.decl, kind=self.kind, size=self.size, ptys=self.ptys)


class Mod:
    def __init__(self, mode="taint", nd=(0, 1)):
        self.funs, self.globs, self.mode, self.nd, self.head, self.tail = [], [], mode, list(nd), "", ""
        self.main = None

    def width(self, ty):
        if ty in ("half", "float", "double", "fp128"):
            return 32       # floating-point values are only followed where they are small integers
        return int(ty[1:]) if ty[0] == "i" and ty[1:].isdigit() else 0

    def glob(self, name, ty, init, cells, const=False, link="", off=0):
        """cells: list of operands"""
        self.globs.append(dict(name=name, txt=f"@{name} = {link}{'constant' if const else 'global'} {ty} {init}\n", cells=cells))
        return V(ty + "*", "@" + name, ["g", len(self.globs), off])

    def finish(self, main):
        for f in self.funs:
            if not f.decl:
                f.number()
        self.main = main.idx
        return dict(funs=[f.model() if not f.decl else dict(name=f.name, np=len(f.params), code=[], decl=True, kind=f.kind, size=f.size, ptys=f.ptys)
                          for f in self.funs],
                    globs=[[c.m for c in g["cells"]] for g in self.globs], gnames=[g["name"] for g in self.globs],
                    main=self.main, nd=self.nd, mode=self.mode)

    def text(self):
        return self.head + "".join(g["txt"] for g in self.globs) + "".join(f.text() for f in self.funs) + self.tail


def executions(P, cap=10**6):
    """An upper bound of the number of executions of a program without loops and recursion."""
    memo = {}

    def fun(f):
        if f in memo:
            return memo[f]
        F = P["funs"][f - 1]
        if F["decl"]:
            n = len(P["nd"]) if F["kind"] in ("nondet", "scan", "source", "sourcep") else 1
            memo[f] = n
            return n
        code, at = F["code"], {}

        def go(pc):
            if pc in at:
                return at[pc]
            s = code[pc - 1]
            n = max([go(k) for k in s["s"]] or [1])
            if s["op"] == "call" and s["a"][0][0] == "f":
                n *= fun(s["a"][0][1])
            elif s["op"] == "call":
                n *= 8
            at[pc] = min(n, cap)
            return at[pc]
        memo[f] = go(1)
        return memo[f]
    return fun(P["main"])
