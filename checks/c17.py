"""C17: the entry model for global constructors and destructors (CRuntime.tla)."""
import json, re, vf

PRIO = [65535, 65535, 65535, 101, 200, 300, 1000, 65534]


def gen(rng):
    ctors, dtors, locs, body, globs = [], [], [], [], []
    n = [0]

    def obj():
        n[0] += 1
        g = f"o{n[0]}"
        globs.append(f"@{g} = internal global %S zeroinitializer")
        return g

    def dtor():
        n[0] += 1
        d = f"_ZN1S{n[0]}D2Ev" if rng.random() < .5 else "_ZN1SD2Ev"
        t = f"define linkonce_odr void @{d}(%S* %this) {{\n  ret void\n}}"
        if t not in body:
            body.append(t)
        return d

    def register(fn):
        r = rng.random()
        if r < .15:
            n[0] += 1
            a = f"__cxx_global_array_dtor.{n[0]}"
            body.append(f"define internal void @{a}(i8* %p) {{\n  ret void\n}}")
            return f"  %a{n[0]} = call i32 @__cxa_atexit(void (i8*)* @{a}, i8* null, i8* @__dso_handle)", dict(fn=a, obj="null")
        d, o = dtor(), obj()
        n[0] += 1
        return (f"  %a{n[0]} = call i32 @__cxa_atexit(void (i8*)* bitcast (void (%S*)* @{d} to void (i8*)*), i8* bitcast (%S* @{o} to i8*), i8* @__dso_handle)", dict(fn=d, obj=o))
    vi = 0
    for k in range(rng.choice([0, 1, 2, 3, 4, 6])):
        prio = rng.choice(PRIO)
        if rng.random() < .5:
            nm = f"ctor{k}"
            body.append(f"define internal void @{nm}() {{\n  ret void\n}}")
            ctors.append(dict(prio=prio, fn=nm, registers=[]))
        else:
            nm = f"_GLOBAL__sub_I_f{k}.cpp"
            inits, regs, defs = [], [], []
            for _ in range(rng.randint(1, 3)):
                vn = "__cxx_global_var_init" + (f".{vi}" if vi else "")
                vi += 1
                rr = [register(vn) for _ in range(rng.choice([0, 1, 1, 2]))]
                defs.append(f"define internal void @{vn}() {{\n" + "".join(x + "\n" for x, _ in rr) + "  ret void\n}")
                inits.append(f"  call void @{vn}()")
                regs += [q for _, q in rr]
            d = f'define internal void @"{nm}"() {{\n' + "\n".join(inits) + "\n  ret void\n}"
            body += [d] + defs if rng.random() < .5 else defs + [d]
            ctors.append(dict(prio=prio, fn=nm, registers=regs))
    for k in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
        body.append(f"define internal void @dtor{k}() {{\n  ret void\n}}")
        dtors.append(dict(prio=rng.choice(PRIO), fn=f"dtor{k}"))
    for k in range(rng.choice([0, 0, 0, 1, 2])):
        rr, q = register("l")
        body.append(f"define internal void @_Z2l{k}v() {{\n{rr}\n  ret void\n}}")
        locs.append(q)
    mainargs = rng.random() < .6
    ents = ["main"] + rng.sample(["f", "g", "h", "start"], rng.randint(0, 3))
    if rng.random() < .15 and len(ents) > 1:
        ents = ents[1:]
    for e in ents:
        body.append(f"define i32 @{e}(" + ("i32 %argc, i8** %argv" if e == "main" and mainargs else "") + ") {\n  ret i32 0\n}")
    rng.shuffle(body)

    def table(nm, l):
        es = [f'{{ i32, void ()*, i8* }} {{ i32 {x["prio"]}, void ()* @"{x["fn"]}", i8* null }}' for x in l]
        if rng.random() < .2:
            es.insert(rng.randint(0, len(es)), "{ i32, void ()*, i8* } { i32 65535, void ()* null, i8* null }")
        if not es:
            return ""
        return f"@llvm.{nm} = appending global [{len(es)} x {{ i32, void ()*, i8* }}] [" + ", ".join(es) + "]\n"
    body.insert(rng.randint(0, len(body)), "declare i32 @__cxa_atexit(void (i8*)*, i8*, i8*)")
    ir = "%S = type { i8* }\n@__dso_handle = external hidden global i8\n" + "\n".join(globs) + "\n" + table("global_ctors", ctors) + table("global_dtors", dtors) + "\n".join(body) + "\n"
    runs = []
    for _ in range(3):
        e = rng.choice([ents, ents[:1], ["__ALL__"], rng.sample(ents, rng.randint(1, len(ents)))])
        runs.append(dict(entries=e, form=rng.choice(["ll", "bc"]), icfg=rng.random() < .3, file=rng.choice(["a.ll", "dir/b.cpp.ll", ""])))
    return dict(ir=ir, ctors=ctors, dtors=dtors, locals=locs, all=ents, mainargs=mainargs, runs=runs)


def run(ctx):
    exe = vf.harness("crt")
    progs = [gen(ctx.rng) for _ in range(ctx.q(400, 6000))]
    st, o = ctx.run(exe, [ctx.dump("in.json", progs), ctx.path("out.json")], timeout=300)
    if st != "ok":
        bad = [p for p in progs[:400] if ctx.run(exe, [ctx.dump("one.json", [p]), ctx.path("one.out")], timeout=20)[0] != "ok"][:1]
        ctx.violation("building the entry model " + ("hangs" if st == "timeout" else "crashes"), dict(output=o, program=bad))
        return
    r = ctx.tlc("CRuntime", env=dict(CRT_OBS=ctx.path("out.json")), timeout=ctx.q(300, 850))
    ctx.cov["traces_validated_against_impl"] += sum(len(p["runs"]) for p in progs)
    if r["status"] != "ok":
        det = dict(trace=r["trace"][-3000:])
        st = {k: re.findall(r"/\\ %s = (\d+)" % k, r["trace"]) for k in ("p", "r")}
        if all(st.values()):
            p, q = (int(st[k][-1]) for k in ("p", "r"))
            det.update(ir=progs[p - 1]["ir"], run=progs[p - 1]["runs"][q - 1], model=json.load(open(ctx.path("out.json")))[p - 1]["runs"][q - 1])
        ctx.violation("entry model: " + r["what"], det)
    ctx.sample(dict(ir=progs[0]["ir"][:1500]))
    ctx.assumptions += ["destructors only run after main (other entry points do not end the program)", "entry points: without parameters, or main(argc, argv)",
                        "destructors of local statics run before those of globals, in any order among themselves", "the model is built once per project database"]
