"""Framework shared by all checks: building /repo's libraries and the harnesses,
running TLC, writing evidence, reporting violations."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = REPO + "/_build"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "/usr/bin/clang++-14"
LLVM14 = "/usr/lib/llvm-14/bin/"

LIBS = ["lib/PhasarLLVM/DataFlow/Mono/libphasar_mono.a",
        "lib/PhasarLLVM/DataFlow/PathSensitivity/libphasar_llvm_pathsensitivity.a",
        "lib/PhasarLLVM/DataFlow/IfdsIde/libphasar_llvm_ifdside.a",
        "lib/PhasarLLVM/TaintConfig/libphasar_taintconfig.a",
        "lib/PhasarLLVM/libphasar_llvm.a",
        "lib/PhasarLLVM/ControlFlow/libphasar_llvm_controlflow.a",
        "lib/ControlFlow/libphasar_controlflow.a",
        "lib/PhasarLLVM/Pointer/libphasar_llvm_pointer.a",
        "lib/Pointer/libphasar_pointer.a",
        "lib/PhasarLLVM/TypeHierarchy/libphasar_llvm_typehierarchy.a",
        "lib/PhasarLLVM/DB/libphasar_llvm_db.a",
        "lib/AnalysisStrategy/libphasar_analysis_strategy.a",
        "lib/DB/libphasar_db.a",
        "lib/PhasarLLVM/Passes/libphasar_passes.a",
        "lib/PhasarLLVM/Utils/libphasar_llvm_utils.a",
        "lib/Config/libphasar_config.a",
        "lib/Utils/libphasar_utils.a"]
SYSLIBS = ["/usr/lib/llvm-14/lib/libLLVM-14.so.1", "/usr/lib/x86_64-linux-gnu/libsqlite3.so",
           "/usr/lib/x86_64-linux-gnu/libboost_graph.so.1.83.0",
           "/usr/lib/x86_64-linux-gnu/libboost_regex.so.1.83.0", "-lz3", "-lpthread"]
INCL = ["-I/usr/lib/llvm-14/include", "-I" + REPO + "/include", "-I" + B + "/include", "-I" + VERIF + "/harness"]
DEFS = ["-DPHASAR_BUILD_DIR=\"/repo/_build\"", "-DPHASAR_SRC_DIR=\"/repo\"", "-D_GNU_SOURCE",
        "-DBOOST_GRAPH_DYN_LINK", "-DBOOST_REGEX_DYN_LINK",
        "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]


class CheckError(Exception):
    """The check itself could not do its work (never a VIOLATION)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def log(*a):
    print(*a, flush=True)


_libs_built = False


def build_libs():
    """Bring /repo/_build's static libraries in line with /repo's working tree."""
    global _libs_built
    if _libs_built:
        return
    t0 = time.time()
    script = ". /opt/vp/configure.sh; mkdir -p $B; configure > $B/verif-configure.log 2>&1 || { tail -50 $B/verif-configure.log; exit 1; }; exec ninja -C $B " + " ".join(LIBS)
    r = sh(["bash", "-c", script], timeout=840)
    if r.returncode != 0:
        raise CheckError("building phasar's libraries failed:\n" + r.stdout[-3000:])
    _libs_built = True
    log(f"[build] phasar libraries up to date ({time.time()-t0:.1f} s)")


def _sha(path, cache={}):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in cache:
        with open(path, "rb") as f:
            cache[k] = hashlib.sha256(f.read()).hexdigest()
    return cache[k]


def _deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    return [d for d in deps if d.startswith(REPO + "/") or d.startswith(VERIF + "/")]


def compile_obj(src, flags):
    os.makedirs(BUILD, exist_ok=True)
    tag = os.path.splitext(os.path.basename(src))[0] + "-" + hashlib.sha256(" ".join(flags).encode()).hexdigest()[:8]
    obj, dfile, hfile = (os.path.join(BUILD, tag + e) for e in (".o", ".d", ".hash"))

    def cur():
        h = hashlib.sha256()
        for d in sorted(set(_deps(dfile))):
            h.update(d.encode()); h.update(_sha(d).encode())
        return h.hexdigest()
    if os.path.exists(obj) and os.path.exists(hfile):
        try:
            if open(hfile).read() == cur():
                return obj
        except OSError:
            pass
    t0 = time.time()
    r = sh([CXX, "-std=c++17", "-fPIC", "-fvisibility-inlines-hidden"] + flags + DEFS + INCL +
           ["-MMD", "-MF", dfile, "-c", src, "-o", obj], timeout=840)
    if r.returncode != 0:
        raise CheckError(f"harness {src} does not compile:\n" + r.stdout[-4000:])
    with open(hfile, "w") as f:
        f.write(cur())
    log(f"[build] compiled {os.path.basename(src)} ({time.time()-t0:.1f} s)")
    return obj


# harnesses that are not built with -O0 -g1 against phasar's libraries
_ASAN = ("-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer")
HARNESS = {"edgefn": dict(flags=_ASAN, libs=False, ldflags=("-fsanitize=address",)),
           "containers": dict(flags=_ASAN, libs=False, ldflags=("-fsanitize=address",))}


def harness(name):
    """Compile and link /verif/harness/<name>.cpp; returns the executable."""
    opt = HARNESS.get(name, {})
    flags, libs, ldflags = list(opt.get("flags", ("-O0", "-g1"))), opt.get("libs", True), opt.get("ldflags", ())
    if libs:
        build_libs()
    else:
        if not os.path.isdir(B + "/include"):
            build_libs()
    obj = compile_obj(os.path.join(VERIF, "harness", name + ".cpp"), flags)
    exe = os.path.join(BUILD, name)
    if libs:
        dep = [os.path.join(B, l) for l in LIBS]
        key = hashlib.sha256((_sha(obj) + "".join(f"{os.stat(d).st_mtime_ns}:{os.stat(d).st_size};" for d in dep) + " ".join(ldflags)).encode()).hexdigest()
        kf = exe + ".linkkey"
        if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
            r = sh([CXX, "-fuse-ld=lld", "-Wl,-rpath,/usr/lib/llvm-14/lib", obj, "-o", exe, "-Wl,--start-group"] + dep +
                   ["-Wl,--end-group", "-lstdc++fs"] + SYSLIBS + list(ldflags), timeout=300)
            if r.returncode != 0:
                raise CheckError(f"linking {name} failed:\n" + r.stdout[-4000:])
            open(kf, "w").write(key)
    else:
        r = sh([CXX, "-fuse-ld=lld", "-Wl,-rpath,/usr/lib/llvm-14/lib", obj, "-o", exe] + SYSLIBS + list(ldflags), timeout=300)
        if r.returncode != 0:
            raise CheckError(f"linking {name} failed:\n" + r.stdout[-4000:])
    return exe


class Ctx:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{prop}:{self.seed}")
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.known = load_known(prop)
        self.notes = []

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.work, name)

    def dump(self, name, obj):
        p = self.path(name)
        with open(p, "w") as f:
            json.dump(obj, f)
        return p

    def run(self, exe, args, timeout=300, env=None, ok=(0,), label=None):
        """Run a harness. A crash/assertion/timeout is reported to the caller as
        (status, output): status in {"ok","crash","timeout"}."""
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=timeout, env=e, cwd=self.work)
        except subprocess.TimeoutExpired as ex:
            err = (ex.stderr or b"")
            err = err.decode(errors="replace") if isinstance(err, bytes) else err
            return "timeout", err
        if r.returncode in ok:
            return "ok", r.stdout
        return "crash", f"exit status {r.returncode}\n" + r.stdout[-2000:] + r.stderr[-4000:]

    def tlc(self, module, env=None, workers=8, timeout=600, cfg=None, expect="ok", heap="6g", simulate=None, extra=(), count=True, files=()):
        """Run TLC on spec/<module>.tla with spec/<cfg or module>.cfg. Returns a
        dict: status in {"ok","violation"}, name of violated property, trace text, printed lines."""
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        meta = self.path(f"tlc-{module}-{cfg or ''}-{time.time_ns()}")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAVA_CP + ":" + SPEC, "tlc2.TLC",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final", "-nowarning"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               timeout=timeout, env=e, cwd=SPEC)
        except subprocess.TimeoutExpired:
            shutil.rmtree(meta, ignore_errors=True)
            raise CheckError(f"TLC on {module} ran out of time ({timeout} s)")
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        res = dict(out=out, rc=r.returncode, wall=time.time() - t0, prints=[])
        m = re.search(r"(\d[\d,]*) states generated,? (?:\()?.*?(\d[\d,]*) distinct states", out)
        for m in re.finditer(r"(\d[\d,]*) states generated[^\n]*?(\d[\d,]*) distinct states found", out):
            pass
        ms = list(re.finditer(r"(\d[\d,]*) states generated[^\n]*?(\d[\d,]*) distinct states found", out))
        gen = dis = 0
        if ms:
            gen, dis = (int(x.replace(",", "")) for x in ms[-1].groups())
        elif simulate:
            ms = list(re.finditer(r"(\d[\d,]*) states (?:checked|generated)", out))
            if ms:
                gen = dis = int(ms[-1].group(1).replace(",", ""))
        res["generated"], res["distinct"] = gen, dis
        if count:
            self.cov["states"] += dis
            self.cov["transitions"] += gen
        for line in out.splitlines():
            if line.startswith("<<\"VF\"") or line.startswith('"VF'):
                res["prints"].append(line)
        v = re.search(r"Error: (Invariant|Action property|Temporal properties|Property|Postcondition|The postcondition|Deadlock)[^\n]*", out)
        if r.returncode == 0 and "Model checking completed. No error" in out or (simulate and r.returncode == 0 and "Error:" not in out):
            res["status"] = "ok"
        elif r.returncode in (10, 11, 12, 13, 14) and v:
            res["status"] = "violation"
            res["what"] = v.group(0)
            i = out.find(v.group(0))
            tr = out[i:]
            j = tr.rfind("\nState ")
            res["trace"] = tr if len(tr) < 30000 else tr[:8000] + "\n...\n" + (tr[j:j + 22000] if j >= 0 else tr[-22000:])
        else:
            raise CheckError(f"TLC failed on {module} (exit {r.returncode}):\n" + out[-3500:])
        log(f"[tlc] {module}/{cfg or module}: {res['status']}, {gen} states generated, {dis} distinct ({res['wall']:.1f} s)")
        return res

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, title, detail, key=None):
        """Record a violation; `key` identifies it for the known-findings file."""
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
                log(f"KNOWN-FINDING: property={self.prop} {self.known[key]}")
            return False
        n = len(self.violations) + 1
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{n}.json")
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, title=title, key=key, seed=self.seed, tier=self.tier, detail=detail), f, indent=1, default=str)
        self.violations.append((title, p))
        if n <= 5:
            log(f"violation: {title}")
            log(f"VIOLATION property={self.prop} replay={p}")
        return True

    def finish(self):
        if not self.violations:
            for k in self.known:
                if k not in self.known_hit:
                    log(f"note: known finding {k} was not reproduced in this run")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        log(f"{self.prop}: {'VIOLATED' if self.violations else 'held'} ({self.tier}, seed {self.seed}, {ev['wall_s']} s): " +
            ", ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, (int, float, str)) and len(str(v)) < 60))
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> key=<key> <text>' lines
    (a 'fixed: ...' line suppresses nothing)."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out
