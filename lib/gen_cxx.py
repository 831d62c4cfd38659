"""Random C++ programs with virtual calls and function pointers (C07): source text and model.
Model statements (one per source line): see spec/Dispatch.tla."""
import os, subprocess

SIGS = {"v": ("void", []), "i": ("int", ["int"]), "o": ("void", ["O"]), "r": ("O", ["O"]), "s": ("void", ["S"])}


class Gen:
    def __init__(self, rng):
        self.r = r = rng
        self.lines, self.cls, self.fns, self.sites = [], [], [], []
        self.ns = r.random() < .25
        n = r.randint(1, 5)
        self.vdtor = r.random() < .4
        for i in range(n):
            base = 0 if i == 0 or r.random() < .12 else r.randint(1, i)
            self.cls.append(dict(name=f"C{i}", base=base, decl={}, kw=r.choice(["struct", "class"]), abstract=False))
        for i, c in enumerate(self.cls):
            for m in ("m0", "m1", "m2", "m3"):
                if r.random() < (.75 if c["base"] == 0 else .5):
                    c["decl"][m] = "pure" if r.random() < (.2 if c["base"] == 0 else .06) else "virt"
            if not c["decl"] and c["base"] == 0:
                c["decl"]["m0"] = "virt"
        for c in self.cls:
            c["pure"] = [m for m in ("m0", "m1", "m2", "m3") if self.over(self.cls.index(c) + 1, m)[1] == "pure"]
        if all(c["pure"] for c in self.cls if self.root(self.cls.index(c) + 1) == 1):
            for c in self.cls:
                c["decl"] = {m: "virt" for m in c["decl"]}
                c["pure"] = []
        # one class may have a member object of another one
        self.mem = (0, 0)
        ks = [(k, j) for k in range(2, n + 1) for j in range(1, k) if j in self.concrete(j)]
        if ks and r.random() < .4:
            self.mem = r.choice(ks)
        self.header()
        self.build()

    # ---- classes
    def over(self, c, m):
        while c:
            d = self.cls[c - 1]["decl"].get(m)
            if d:
                return c, d
            c = self.cls[c - 1]["base"]
        return 0, None

    def root(self, c):
        while self.cls[c - 1]["base"]:
            c = self.cls[c - 1]["base"]
        return c

    def isa(self, c, s):
        while c and c != s:
            c = self.cls[c - 1]["base"]
        return c == s

    def concrete(self, s):
        return [c for c in range(1, len(self.cls) + 1) if self.isa(c, s) and not self.cls[c - 1]["pure"]]

    def q(self, c):
        return ("N::" if self.ns else "") + self.cls[c - 1]["name"]

    def ty(self, t):
        return {"O": self.q(1) + " *", "S": "Ops *", "int": "int", "void": "void"}.get(t) or (self.q(t[1]) + " *" if t[0] == "o" else "Ops *" if t[0] == "s" else f"F{t[1]}")

    def kind(self, t):
        return ("o", 1) if t == "O" else ("s", 0) if t == "S" else t

    def emit(self, s):
        self.lines.append(s)
        return len(self.lines)

    def header(self):
        e = self.emit
        e("extern int coin(); extern int opaque(int);")
        if self.ns:
            e("namespace N {")
        for i, c in enumerate(self.cls):
            e(f"{c['kw']} {c['name']};")
        for i, c in enumerate(self.cls):
            e(f"{c['kw']} {c['name']}" + (f" : public {self.cls[c['base']-1]['name']}" if c["base"] else "") + " {")
            e("public:")
            if c["base"] == 0:
                e(f"  {c['name']} *nx = nullptr; int f = 0;")
            if self.mem[0] == i + 1:
                e(f"  {self.cls[self.mem[1]-1]['name']} mb;")
            if self.vdtor and (c["base"] == 0 or self.r.random() < .5):
                c["decl"]["d"] = "virt"
                e(f"  virtual ~{c['name']}();")
            ms = [m for m in c["decl"] if m != "d"]
            self.r.shuffle(ms)
            for m in ms:
                e("  " + self.proto(i + 1, m, False) + (" = 0;" if c["decl"][m] == "pure" else ";"))
            e("};")
        if self.ns:
            e("}")
        q1 = self.q(1)
        e("struct Ops;")
        e(f"typedef void (*Fv)(); typedef int (*Fi)(int); typedef void (*Fo)({q1} *); typedef {q1} *(*Fr)({q1} *); typedef void (*Fs)(Ops *);")
        e("struct Ops { int n; Fs cb; Fv cv; };")

    def proto(self, c, m, outside):
        n = (self.q(c) + "::" if outside else "virtual ")
        pre = {"m0": "void", "m1": "int", "m2": "void", "m3": self.q(c) + " *"}[m]
        par = {"m0": "", "m1": "int x", "m2": self.q(self.root(c)) + " *x", "m3": ""}[m]
        return (f"{pre} {n}{m}({par})" if outside else f"{n}{pre} {m}({par})")

    # ---- functions
    def build(self):
        r = self.r
        F = self.fns
        for i, c in enumerate(self.cls):
            for m, k in c["decl"].items():
                F.append(dict(kind="m", c=i + 1, m=m, pure=k == "pure", id=len(F) + 1))
        for j in range(r.randint(2, 6)):
            s = r.choice(list(SIGS))
            ret, ps = SIGS[s]
            F.append(dict(kind="h", sig=s, name=f"h{j}", ret=ret, ps=[self.kind(p) for p in ps if p != "int"], id=len(F) + 1))
        for j in range(r.randint(0, 3)):
            ps = [r.choice([("o", r.randint(1, len(self.cls))), ("f", r.choice("vior")), ("s", 0)]) for _ in range(r.randint(0, 2))]
            F.append(dict(kind="g", name=f"g{j}", ret=r.choice(["void", "O"]), ps=ps, id=len(F) + 1))
        F.append(dict(kind="main", name="main", ret="int", ps=[], id=len(F) + 1))
        self.glob = [("o", 1), ("f", "v")]
        for f in F:
            if f["kind"] in "hg":
                if f["kind"] == "h":
                    a = ", ".join(self.ty(p) + f" a{k}" for k, p in enumerate(SIGS[f["sig"]][1]))
                else:
                    a = ", ".join(self.ty(p) + f" p{k+1}" for k, p in enumerate(f["ps"]))
                f["proto"] = f"{self.ty(f['ret'])} {f['name']}({a})"
                f["dem"] = f["name"]
                self.emit(f["proto"] + ";")
            elif f["kind"] == "m":
                q = self.q(f["c"])
                f["dem"] = {"m0": f"{q}::m0()", "m1": f"{q}::m1(int)", "m2": f"{q}::m2({self.q(self.root(f['c']))}*)", "m3": f"{q}::m3()",
                            "d": f"{q}::~{self.cls[f['c']-1]['name']}()#D0"}[f["m"]]
            else:
                f["proto"], f["dem"] = "int main()", "main"
        self.emit(f"{self.q(1)} *G1 = nullptr; Fv G2 = nullptr;")
        hv = [f for f in F if f["kind"] == "h" and f["sig"] == "v"]
        self.tab = [r.choice(hv)["id"] for _ in range(r.randint(1, 3))] if hv else []
        if self.tab:
            self.emit(("static " if r.random() < .5 else "") + ("const " if r.random() < .5 else "") + f"Fv T[] = {{{', '.join(self.fn(i) for i in self.tab)}}};")
        # a global object of every second class
        self.gobj = {}
        for c in self.concrete(1):
            if r.random() < .2 and not self.isa(c, self.mem[0]):
                self.gobj[c] = f"GO{c}"
                self.emit(f"{self.q(c)} GO{c};")
        for f in F:
            self.body(f)

    def fn(self, i):
        return self.fns[i - 1]["name"]

    def body(self, f):
        r = self.r
        self.f, self.code, self.vars, self.ind = f, [], [], "  "
        f["code"] = self.code
        f["np"] = 0
        if f.get("pure"):
            f["nv"] = 1
            return
        if f["kind"] == "m":
            c = self.cls[f["c"] - 1]
            if f["m"] == "d":
                self.emit(f"{self.q(f['c'])}::~{c['name']}() {{ f = {r.randint(1, 9)}; }}")
                f["nv"], f["np"] = 1, 1
                self.st("ret", 0)
                return
            self.emit(self.proto(f["c"], f["m"], True) + " {")
            self.vars.append(("this", ("o", f["c"])))
            if f["m"] == "m2":
                self.vars.append(("x", ("o", self.root(f["c"]))))
            ret = {"m0": "void", "m1": "int", "m2": "void", "m3": ("o", f["c"])}[f["m"]]
        else:
            self.emit(f["proto"] + " {")
            for k, p in enumerate(f["ps"]):
                self.vars.append((("a" if f["kind"] == "h" else "p") + (str(k) if f["kind"] == "h" else str(k + 1)), p))
            ret = self.kind(f["ret"]) if f["ret"] == "O" else f["ret"]
        f["np"] = len(self.vars)
        self.locals = len(self.vars)
        self.stmts(r.randint(1, 4 if f["kind"] != "main" else 7), 2)
        rv = 0
        if ret == "void":
            self.emit("}")
        elif ret == "int":
            self.emit("  return opaque(0);\n}".replace("\n", " "))
        else:
            rv = self.var(ret, lambda v: True) or self.newobj(ret[1])
            self.emit(f"  return {self.vars[rv-1][0]}; }}")
        self.st("ret", rv)
        f["nv"] = max(1, len(self.vars))

    def st(self, op, a=0, b=0, c=0, args=(), site=0):
        self.code.append(dict(op=op, a=a, b=b, c=c, args=list(args), site=site))
        return len(self.code)

    def fits(self, t, want):
        return t[0] == want[0] and (t == want or want[0] == "o" and self.isa(t[1], want[1]))

    def var(self, want, ok=lambda v: True):
        c = [k + 1 for k, (n, t) in enumerate(self.vars) if n and self.fits(t, want)]
        return self.r.choice(c) if c else 0

    def decl(self, t):
        self.vars.append((f"v{len(self.vars)}", t))
        return len(self.vars)

    def need(self, t):
        if self.r.random() < .75:
            v = self.var(t)
            if v:
                return v
        if t[0] == "o":
            return self.newobj(t[1])
        if t[0] == "f":
            hs = [f for f in self.fns if f["kind"] == "h" and f["sig"] == t[1]]
            if not hs:
                return self.var(t)
            h = self.r.choice(hs)
            v = self.decl(t)
            self.emit(f"{self.ind}F{t[1]} {self.vars[v-1][0]} = {'&' if self.r.random() < .5 else ''}{h['name']};")
            self.st("fset", v, h["id"])
            return v
        v = self.decl(t)
        hs = [f for f in self.fns if f["kind"] == "h" and f["sig"] == "s"]
        n = self.vars[v - 1][0]
        h = self.r.choice(hs) if hs else None
        hv = self.r.choice([f for f in self.fns if f["kind"] == "h" and f["sig"] == "v"] or [None])
        self.emit(f"{self.ind}Ops o{n} = {{{self.r.randint(0, 9)}, {h['name'] if h else 'nullptr'}, {hv['name'] if hv else 'nullptr'}}}; Ops *{n} = &o{n};")
        self.st("news", v, h["id"] if h else 0, hv["id"] if hv else 0)
        return v

    def newobj(self, s):
        cs = self.concrete(s)
        r = self.r
        if not cs:
            return 0
        v = self.decl(("o", s))
        n, c, T = self.vars[v - 1][0], r.choice(cs), self.q(s)
        k = r.random()
        if c in self.gobj and k < .5:
            self.emit(f"{self.ind}{T} *{n} = &{self.gobj[c]};")
            self.st("gobj", v, c)
            return v
        if k < .5:
            self.emit(f"{self.ind}{T} *{n} = new {self.q(c)}();")
        elif k < .58:
            self.emit(f"{self.ind}{T} *{n} = &(new {self.q(c)}[2])[1];" if c == s or r.random() < .6 else f"{self.ind}{T} *{n} = new {self.q(c)}[3];")
        elif k < .9:
            self.emit(f"{self.ind}{self.q(c)} o{n}; {T} *{n} = &o{n};")
        elif k < .95:
            self.emit(f"{self.ind}{self.q(c)} o{n}[2]; {T} *{n} = &o{n}[1];")
        else:
            self.emit(f"{self.ind}struct L{n} {{ int k; {self.q(c)} o; }} o{n}; {T} *{n} = &o{n}.o;")
        self.st("new", v, c)
        return v

    def stmts(self, n, d):
        for _ in range(n):
            self.stmt(d)

    def site(self, **kw):
        self.sites.append(dict(f=self.f["id"], **kw))
        return len(self.sites)

    def slots(self, s):
        return [m for m in ("m0", "m1", "m2", "m3") if self.over(s, m)[0]]

    def stmt(self, d):
        r = self.r
        k = r.random()
        e = self.emit
        if k < .34:
            s = r.choice([i + 1 for i in range(len(self.cls)) if self.concrete(i + 1)])
            v = self.need(("o", s))
            t = self.vars[v - 1][1][1]
            ms = self.slots(t)
            if not ms:
                return
            m = r.choice(ms)
            arg, args = "", []
            if m == "m1":
                arg = str(r.randint(0, 9))
            if m == "m2":
                a = self.need(("o", self.root(t)))
                if not a:
                    return
                arg, args = self.vars[a - 1][0], [a]
            res, pre = 0, ""
            if m == "m3":
                # static return type: nearest declaration seen from t
                rt = self.over(t, "m3")[0]
                if r.random() < .5:
                    res = self.decl(("o", rt))
                    pre = f"{self.q(rt)} *{self.vars[res-1][0]} = "
            ln = e(f"{self.ind}{pre}{self.vars[v-1][0]}->{m}({arg});")
            self.st("vcall", v, int(m[1]) + 1, res, args, self.site(line=ln, kind="v", static=self.over(t, m)[0], m=int(m[1]) + 1))
        elif k < .44:
            cs = [f for f in self.fns if f["kind"] in "hg"]
            f = r.choice(cs)
            ps = f["ps"]
            args = [self.need(p) for p in ps]
            if not all(args):
                return
            txt = ", ".join(self.vars[a - 1][0] for a in args)
            if f["kind"] == "h" and f["sig"] == "i":
                txt = str(r.randint(0, 5))
            res, pre = 0, ""
            if f["ret"] == "O" and r.random() < .7:
                res = self.decl(("o", 1))
                pre = f"{self.q(1)} *{self.vars[res-1][0]} = "
            ln = e(f"{self.ind}{pre}{f['name']}({txt});")
            self.st("call", f["id"], 0, res, args, self.site(line=ln, kind="d", fn=f["id"]))
        elif k < .6:
            sg = r.choice("vior")
            p = self.need(("f", sg))
            if not p:
                return
            args = [self.need(self.kind(x)) for x in SIGS[sg][1] if x != "int"]
            if not all(args):
                return
            txt = "3" if sg == "i" else ", ".join(self.vars[a - 1][0] for a in args)
            res, pre = 0, ""
            if sg == "r" and r.random() < .7:
                res = self.decl(("o", 1))
                pre = f"{self.q(1)} *{self.vars[res-1][0]} = "
            ln = e(f"{self.ind}{pre}{self.vars[p-1][0]}({txt});")
            self.st("fcall", p, 0, res, args, self.site(line=ln, kind="f"))
        elif k < .68:
            s = self.need(("s", 0))
            n = self.vars[s - 1][0]
            q = r.random()
            if q < .3:
                h = r.choice([f for f in self.fns if f["kind"] == "h" and f["sig"] == "s"] or [None])
                if h:
                    e(f"{self.ind}{n}->cb = {h['name']};")
                    self.st("sset", s, 1, h["id"])
            elif q < .65:
                ln = e(f"{self.ind}{n}->cb({n});")
                self.st("scall", s, 1, 0, [s], self.site(line=ln, kind="f"))
            else:
                ln = e(f"{self.ind}{n}->cv();")
                self.st("scall", s, 2, 0, [], self.site(line=ln, kind="f"))
        elif k < .74:
            t = r.choice([t for n, t in self.vars] or [("o", 1)])
            if t[0] == "s":
                return
            a, b = self.var(t), self.need(t)
            a = next((i + 1 for i, (n, u) in enumerate(self.vars) if u == t and n not in ("this", "")), 0)
            if a and b and a != b:
                e(f"{self.ind}{self.vars[a-1][0]} = {self.vars[b-1][0]};")
                self.st("asg", a, b)
        elif k < .82:
            g = r.choice([1, 2])
            t = self.glob[g - 1]
            if r.random() < .5:
                v = self.need(t)
                if v:
                    e(f"{self.ind}G{g} = {self.vars[v-1][0]};")
                    self.st("gset", g, v)
            else:
                v = self.decl(t)
                e(f"{self.ind}{self.ty(t)} {self.vars[v-1][0]} = G{g};")
                self.st("gget", v, g)
        elif k < .86:
            v, w = self.need(("o", 1)), self.need(("o", 1))
            if not v or not w:
                return
            q = r.random()
            u = self.mem[0] and self.concrete(self.mem[0]) and q < .3 and self.need(("o", self.mem[0]))
            if u:
                x = self.decl(("o", self.mem[1]))
                e(f"{self.ind}{self.q(self.mem[1])} *{self.vars[x-1][0]} = &{self.vars[u-1][0]}->mb;")
                self.st("mget", x, u)
            elif q < .6:
                e(f"{self.ind}{self.vars[v-1][0]}->nx = {self.vars[w-1][0]};")
                self.st("nset", v, w)
            else:
                x = self.decl(("o", 1))
                e(f"{self.ind}{self.q(1)} *{self.vars[x-1][0]} = {self.vars[v-1][0]}->nx;")
                self.st("nget", x, v)
        elif k < .9 and self.tab:
            v = self.decl(("f", "v"))
            i = r.randrange(len(self.tab))
            if r.random() < .5:
                e(f"{self.ind}Fv {self.vars[v-1][0]} = T[{i}];")
                self.st("fset", v, self.tab[i])
            else:
                e(f"{self.ind}Fv {self.vars[v-1][0]} = T[opaque({i})];")
                self.st("ftab", v)
        elif k < .93 and self.vdtor:
            s = r.choice([i + 1 for i in range(len(self.cls)) if self.concrete(i + 1)])
            c = r.choice(self.concrete(s))
            v = self.decl(("o", s))
            n = self.vars[v - 1][0]
            self.vars[v - 1] = ("", ("o", s))  # not used again
            e(f"{self.ind}{self.q(s)} *{n} = new {self.q(c)}();")
            self.st("new", v, c)
            if not self.over(s, "d")[0]:
                return
            ln = e(f"{self.ind}delete {n};")
            self.st("vcall", v, 5, 0, [], self.site(line=ln, kind="v", static=s, m=5))
        elif d:
            nv = len(self.vars)
            loop = r.random() < .3
            e(self.ind + ("while" if loop else "if") + " (coin()) {")
            old, self.ind = self.ind, self.ind + "  "
            br = self.st("br")
            self.stmts(r.randint(1, 3), d - 1)
            self.hide(nv)
            if loop:
                self.st("jmp", br)
                self.ind = old
                e(self.ind + "}")
                self.code[br - 1]["a"] = len(self.code) + 1
                return
            if r.random() < .6:
                self.ind = old
                e(self.ind + "} else {")
                self.ind += "  "
                j = self.st("jmp")
                self.code[br - 1]["a"] = len(self.code) + 1
                self.stmts(r.randint(1, 2), d - 1)
                self.hide(nv)
                self.code[j - 1]["a"] = len(self.code) + 1
            else:
                self.code[br - 1]["a"] = len(self.code) + 1
            self.ind = old
            e(self.ind + "}")

    def hide(self, nv):
        for k in range(nv, len(self.vars)):
            self.vars[k] = ("", self.vars[k][1])

    def model(self):
        ms = ["m0", "m1", "m2", "m3", "d"]
        fid = {(f["c"], f["m"]): f["id"] for f in self.fns if f["kind"] == "m"}
        return dict(
            classes=[dict(base=c["base"], decl=[fid.get((i + 1, m), 0) for m in ms]) for i, c in enumerate(self.cls)],
            pure=[f["id"] for f in self.fns if f.get("pure")],
            tab=self.tab, mem=list(self.mem), main=len(self.fns), gobjs=sorted(self.gobj),
            funs=[dict(code=f["code"], nv=f["nv"], np=f["np"]) for f in self.fns],
            dem=[f["dem"] for f in self.fns],
            sites=[dict(f=s["f"], line=s["line"], kind=s["kind"], static=s.get("static", 0), m=s.get("m", 0), fn=s.get("fn", 0)) for s in self.sites])

    def src(self):
        return "\n".join(self.lines) + "\n"


def compile_cxx(path, out, mem2reg=False, debug=True):
    cmd = (["/usr/bin/clang-14"] if path.endswith(".c") else ["/usr/bin/clang++-14", "-std=c++17"]) + [ "-O0", "-S", "-emit-llvm", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-w"] + (["-g"] if debug else [])
    r = subprocess.run(cmd + [path, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[:3000])
    if mem2reg:
        subprocess.run(["/usr/lib/llvm-14/bin/opt", "-mem2reg", "-S", out, "-o", out], check=True)
