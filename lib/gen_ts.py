"""Random C programs over stdio file handles, as source text and as a model for FileState.tla."""
USES = ["fgetc({0})", "getc({0})", "fputc(1, {0})", "putc(1, {0})", "fputs(\"s\", {0})", "fgets(buf, 3, {0})", "fread(buf, 1, 1, {0})", "fwrite(buf, 1, 1, {0})",
        "fflush({0})", "ftell({0})", "rewind({0})", "fseek({0}, 0, 0)", "fprintf({0}, \"s\")", "fscanf({0}, \"s\")", "ungetc(1, {0})", "fileno({0})", "fgetwc({0})", "getwc({0})", "ungetwc(1, {0})", "fputwc(1, {0})", "putwc(1, {0})", "fwprintf({0}, L\"s\")", "vfprintf({0}, \"s\", va)", "fwscanf({0}, L\"s\")", "vfscanf({0}, \"s\", va)", "vfwscanf({0}, L\"s\", va)", "vfwprintf({0}, L\"s\", va)", "fgetpos({0}, &pos)", "fsetpos({0}, &pos)"]
OPENS = ["fopen(\"a\", \"r\")", "fdopen(1, \"r\")"]


class Fun:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.vars, self.code, self.rets, self.same = list(params), [], {}, []


class Gen:
    def __init__(self, rng, straight=False):
        self.rng, self.straight = rng, straight
        self.out = ["#include <stdio.h>", "#include <wchar.h>", "int nd(void);", "extern char buf[8];", "extern fpos_t pos;", "extern __builtin_va_list va;"]
        self.funs = []
        for k in range(rng.randint(0, 3)):
            ret = rng.random() < .35
            self.fun(f"f{k}", [] if ret and (straight or rng.random() < .6) else ["p0"], ret)
        self.fun("main", [], False)

    def line(self, s, depth):
        self.out.append("  " * depth + s)
        return len(self.out)

    def fun(self, name, params, ret):
        r = self.rng
        f = self.f = Fun(name, params, ret)
        ty = "int" if name == "main" else "FILE *" if ret else "void"
        ps = ["FILE *" + p for p in params]
        for k in range(r.choice([0, 0, 0, 1, 1, 2]) if name != "main" else 0):
            ps.insert(r.randint(0, len(ps)), f"int i{k}")
        f.sig = ["i" if p.startswith("int") else "f" for p in ps]
        self.line(f"{ty} {name}({', '.join(ps) or 'void'}) {{", 0)
        self.funs.append(f)
        self.locals = [f"x{k}" for k in range(r.randint(1 if ret or not params else 0, 2))]
        f.vars += self.locals
        f.frozen, f.late, f.unset = set(), [], []   # not assigned (again); targets of copies
        if r.random() < .25 and not ret:
            f.late = [f"y{k}" for k in range(r.randint(1, 2))]
            f.unset, f.vars = list(f.late), f.vars + f.late
        for v in self.locals + f.late:
            self.line(f"FILE *{v};", 1)
        for v in self.locals:
            if r.random() < .75:
                self.stmt("open", f"{v} = {r.choice(OPENS)};", 1, x=v)
        self.left = r.randint(3, 9)
        self.block(1, None)
        k = self.stmt("ret", f"return{' ' + self.locals[0] if ret else ' 0' if name == 'main' else ''};", 1, x=self.locals[0] if ret else None)
        self.line("}", 0)

    # statements: appended to the code of the function; nx (0-based) patched by the structure
    def stmt(self, op, text, depth, x=None, f=None, args=(), dst=None):
        c = self.f.code
        idx = lambda v: self.f.vars.index(v) + 1 if v else 0
        c.append(dict(op=op, line=self.line(text, depth), x=idx(x), f=f or 0, args=[idx(a) for a in args], dst=idx(dst), nx=[len(c) + 2]))
        return len(c) - 1

    def block(self, depth, loop):
        r, f = self.rng, self.f
        n = r.randint(1, 3) if depth > 1 else self.left
        for _ in range(n):
            if depth > 1 and self.left <= 0:
                break
            self.left -= 1
            self.one(depth)
        if not n or depth > 1:
            pass

    def one(self, depth):
        r, f = self.rng, self.f
        k = r.choice(["open", "close", "use", "use", "call", "call", "call", "getc", "getc"] + ["copy"] * (2 if f.unset and depth == 1 else 0) + ([] if self.straight else ["if", "ife", "while", "early"]))
        helpers = [(i, g) for i, g in enumerate(self.funs) if g.name != "main" and (g is not f or (r.random() < .2 and not self.straight))]
        locs = [v for v in self.locals if v not in f.frozen]
        held = [v for v in f.vars if v not in f.unset]
        if k == "copy" and held:
            a, b = r.choice(held), f.unset.pop(0)
            group = {a, b} | {v for p in f.same if a in p for v in p}
            f.same += [[v, w] for v in group for w in group if v != w]
            f.frozen |= {a, b}
            self.stmt("copy", f"{b} = {a};", depth, x=a, dst=b)
        elif k == "open" and locs:
            v = r.choice(locs)
            self.stmt("open", f"{v} = {r.choice(OPENS)};", depth, x=v)
        elif k in ("close", "use") and held:
            v = r.choice(held)
            self.stmt(k, (f"fclose({v})" if k == "close" else r.choice(USES).format(v)) + ";", depth, x=v)
        elif k in ("call", "getc"):
            hs = [(i, g) for i, g in helpers if len(g.params) <= len(held) and (k == "call" or g.ret) and not (g.ret and (not locs or f.rets.get(g.name) in f.frozen))]
            if hs:
                i, g = r.choice(hs)
                args = r.sample(held, len(g.params))
                # one variable per function gets the handles a helper returns: their alias sets are the same
                dst = f.rets.setdefault(g.name, r.choice(locs)) if g.ret else None
                if g.ret and g.params:
                    args = [dst]
                it = iter(args)
                txt = (f"{dst} = " if dst else "") + f"{g.name}({', '.join(next(it) if t == 'f' else str(r.randint(0, 9)) for t in g.sig)});"
                if g is f:  # recursion behind a condition
                    b = self.stmt("br", "if (nd())", depth)
                    self.stmt("call", txt, depth + 1, f=i + 1, args=args, dst=dst)
                    f.code[b]["nx"].append(len(f.code) + 1)
                else:
                    self.stmt("call", txt, depth, f=i + 1, args=args, dst=dst)
            else:
                self.stmt("nop", "nd();", depth)
        elif k == "if" and depth < 3:
            b = self.stmt("br", "if (nd()) {", depth)
            self.block(depth + 1, None)
            self.line("}", depth)
            f.code[b]["nx"].append(len(f.code) + 1)
        elif k == "ife" and depth < 3:
            b = self.stmt("br", "if (nd()) {", depth)
            self.block(depth + 1, None)
            e = self.stmt("nop", "nd();", depth + 1)
            self.line("} else {", depth)
            f.code[b]["nx"].append(len(f.code) + 1)
            self.block(depth + 1, None)
            self.line("}", depth)
            f.code[e]["nx"] = [len(f.code) + 1]
        elif k == "while" and depth < 3:
            b = self.stmt("br", "while (nd()) {", depth)
            self.block(depth + 1, None)
            e = self.stmt("nop", "nd();", depth + 1)
            self.line("}", depth)
            f.code[e]["nx"] = [b + 1]
            f.code[b]["nx"].append(len(f.code) + 1)
        elif k == "early" and depth == 1 and (not f.ret):
            b = self.stmt("br", "if (nd())", depth)
            self.stmt("ret", "return%s;" % (" 0" if f.name == "main" else ""), depth + 1)
            f.code[b]["nx"].append(len(f.code) + 1)
        else:
            self.stmt("nop", "nd();", depth)

    def src(self):
        return "\n".join(self.out) + "\n"

    def model(self):
        calls = [[0] * len(self.funs) for _ in self.funs]
        for i, f in enumerate(self.funs):
            for c in f.code:
                if c["f"]:
                    calls[c["f"] - 1][i] += 1
        once = [False] * len(self.funs)   # entered at most once in an execution
        for i in reversed(range(len(self.funs))):
            once[i] = sum(calls[i]) == 0 or sum(calls[i]) == 1 and any(n and once[j] for j, n in enumerate(calls[i]))
        return [dict(exact=self.straight and once[self.funs.index(f)], name=f.name, np=len(f.params), vars=f.vars, late=[v in f.late for v in f.vars], code=f.code, same=f.same) for f in self.funs]
