"""Random C++ class hierarchies (C11, C12): source text and model.
Every class stands on its own line, which identifies it in the debug information."""
M = ["m0", "m1", "m2", "m3", "m4", "m5", "k"]  # method numbers 1..7; 8: destructor
DTOR = 8


class Gen:
    def __init__(self, rng, big=False):
        self.r = r = rng
        self.lines, self.cls = [], []
        self.e("extern void use(void *);")
        n = r.randint(1, 12 if big else 8)
        for i in range(1, n + 1):
            self.declare(i, n)
        self.defs()
        self.main()

    def e(self, s):
        self.lines.append(s)
        return len(self.lines)

    # ---- semantics needed to generate valid programs
    def bases(self, c):
        return [b for b, _ in self.cls[c - 1]["bases"]]

    def virt(self, c, m):
        d = self.cls[c - 1]["decl"].get(m)
        return d in ("virt", "pure", "purep") or any(self.virt(b, m) for b in self.bases(c))

    def poly(self, c):
        return any(self.virt(c, m) for m in range(1, DTOR + 1))

    def pures(self, c):
        """methods whose final overrider in c is pure"""
        out = set()
        for m in range(1, DTOR):
            d = self.cls[c - 1]["decl"].get(m)
            if d == "pure":
                out.add(m)
            elif not d and any(m in self.pures(b) for b in self.bases(c)):
                out.add(m)
        return out

    def allbases(self, c):
        s = {c}
        for b in self.bases(c):
            s |= self.allbases(b)
        return s

    def declare(self, i, n):
        r = self.r
        kind = "union" if r.random() < .05 else r.choice(["struct", "class"])
        prev = [k for k in range(1, i) if self.cls[k - 1]["kind"] != "union" and not self.cls[k - 1]["local"]]
        bs = []
        if kind != "union" and prev and r.random() < .75:
            w = r.choices([1, 2, 3], [6, 3, 1])[0]
            for b in r.sample(prev, min(w, len(prev))):
                # no inaccessible/ambiguous direct bases
                if any(b in self.allbases(x) or x in self.allbases(b) for x, _ in bs):
                    continue
                bs.append((b, r.random() < .2))
        ns = r.choice(["", "", "", "N", "M", "()", "N::O"])
        taken = {(c["ns"], c["name"]) for c in self.cls}
        name = r.choice(["A", "B", "C"]) if r.random() < .3 else f"C{i}"
        if (ns, name) in taken or (ns == "()" and ("", name) in taken) or (ns == "" and ("()", name) in taken):
            name = f"C{i}"
        local = ns == "" and i > n - 2 and r.random() < .15
        tmpl = not local and ns in ("", "N") and kind != "union" and r.random() < .08
        anon = not local and not tmpl and not bs and ns in ("", "N") and r.random() < .06
        c = dict(kind=kind, bases=bs, ns=ns, name=name, decl={}, local=local, tmpl=tmpl, anon=anon)
        self.cls.append(c)
        c["q"] = ({"": "", "()": "(anonymous namespace)::"}.get(ns, ns + "::")) + name
        c["ref"] = ({"": "", "()": ""}.get(ns, ns + "::")) + name + ("<int>" if tmpl else "")
        ms = list(range(1, 7))
        r.shuffle(ms)
        multi = len(bs) > 1 or any(v for _, v in bs)
        polybase = any(self.poly(b) for b, _ in bs)
        if kind != "union" and not anon:
            for m in ms:
                inh = any(self.virt(b, m) for b, _ in bs)
                if multi and inh:  # unique final overrider
                    c["decl"][m] = r.choice(["virt", "plain"])
                elif r.random() < (.35 if inh else .2):
                    c["decl"][m] = r.choices(["virt", "pure", "plain"], [5, 1, 2])[0]
            if any(self.virt(b, DTOR) for b, _ in bs):
                if multi or r.random() < .5:
                    c["decl"][DTOR] = r.choice(["virt", "plain"])
            elif r.random() < .12:
                c["decl"][DTOR] = "virt"
            c["decl"] = dict(r.sample(list(c["decl"].items()), len(c["decl"])))
            if self.poly(i):
                key = any(d != "pure" and self.virt(i, m) for m, d in c["decl"].items())
                if (local or tmpl or ns == "()") and self.pures(i):  # only emitted if it can be used
                    for m in self.pures(i):
                        c["decl"][m] = "virt"
                elif not key and (self.pures(i) or r.random() < .6 or multi):
                    c["decl"][7] = "virt"
        pre, post = "", ""
        for s in (ns.split("::") if ns not in ("", "()") else []):
            pre, post = pre + f"namespace {s} {{ ", post + " }"
        if ns == "()":
            pre, post = "namespace { ", " }"
        bt = []
        for b, v in bs:
            ref = "::" + self.cls[b - 1]["ref"]
            if r.random() < .2 and not local:
                self.e(f"typedef {ref} TB{i}_{b};")
                ref = f"::TB{i}_{b}"
            bt.append(("virtual " if v else "") + "public " + ref)
        body = []
        inline = local or tmpl
        for m, d in c["decl"].items():
            impl = " {}" if inline and d != "pure" else ";"
            if m == DTOR:
                body.append(("virtual " if d == "virt" else "") + f"~{name}(){impl}")
            else:
                body.append(("virtual " if d != "plain" else "") + f"void {M[m-1]}()" + (" = 0;" if d == "pure" else impl))
        data = f"int f{i};"
        if anon:
            c["q"] = c["ref"] = ({"": "", "()": ""}.get(ns, ns + "::")) + f"TD{i}"
            txt = f"typedef {kind} {{ {'public: ' if kind == 'class' else ''}{data} }} TD{i};"
        else:
            txt = ("template <class T> " if tmpl else "") + f"{kind} {name}" + (" : " + ", ".join(bt) if bt else "") + \
                  " {" + (" public: " if kind == "class" else " ") + " ".join(body) + f" {data} }};"
        c["txt"] = pre + txt + post
        c["line"] = 0 if local else self.e(c["txt"])

    def defs(self):
        order = [(i + 1, m) for i, c in enumerate(self.cls) if not c["local"] and not c["tmpl"] for m, d in c["decl"].items() if d != "pure"]
        self.r.shuffle(order)
        for i, m in order:
            c = self.cls[i - 1]
            n = c["name"]
            f = f"{c['ref']}::~{n}() {{}}" if m == DTOR else f"void {c['ref']}::{M[m-1]}() {{}}"
            if c["ns"] == "()":
                f = "namespace { " + f + " }"
            self.e(f)

    def main(self):
        r = self.r
        self.e("int main() {")
        for i, c in enumerate(self.cls):
            if c["local"]:
                c["line"] = self.e("  " + c["txt"])
            if self.pures(i + 1):
                self.e(f"  {c['ref']} *p{i+1} = nullptr; use(p{i+1}); p{i+1}->f{i+1} = 1;")
            else:
                self.e(f"  {c['ref']} v{i+1}; use(&v{i+1}); v{i+1}.f{i+1} = 1;")
                for m in c["decl"]:
                    if c["local"] and m != DTOR:
                        self.e(f"  v{i+1}.{M[m-1]}();")
        self.e("}")

    def model(self):
        out = []
        for i, c in enumerate(self.cls):
            out.append(dict(bases=[dict(c=b, virt=v) for b, v in c["bases"]], decl=[dict(m=m, k=d) for m, d in c["decl"].items()],
                            plain=not c["local"] and not c["tmpl"], local=c["local"]))
        return dict(classes=out)

    def src(self):
        return "\n".join(self.lines) + "\n"


class GenC(Gen):
    """C programs: structs and unions without identifiers, some without names"""

    def declare(self, i, n):
        r = self.r
        kind = r.choice(["struct", "struct", "union"])
        anon = r.random() < .4
        c = dict(kind=kind, bases=[], ns="", name=f"C{i}", decl={}, local=False, tmpl=False, anon=anon, q=f"TD{i}" if anon else f"C{i}",
                 ref=f"TD{i}" if anon else f"{kind} C{i}")
        self.cls.append(c)
        c["txt"] = f"typedef {kind} {{ int f{i}; }} TD{i};" if anon else f"{kind} C{i} {{ int f{i}; }};"
        c["line"] = self.e(c["txt"])
