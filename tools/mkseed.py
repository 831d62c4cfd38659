"""mkseed.py ID property needs breaks -- reads edits (file, old, new) from a python file; used to author planted bugs."""
import json, os, subprocess, sys, shutil
SE = "/verif/seeded"


def mk(id, prop, edits, needs, breaks, files, demo):
    d = f"{SE}/{id}"
    os.makedirs(d, exist_ok=True)
    old = {}
    try:
        for f, a, b in edits:
            p = "/repo/" + f
            s = open(p).read()
            old.setdefault(p, s)
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        for p, s in old.items():
            open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    for n, src in files.items():
        if os.path.exists(src):
            shutil.copy(src, d + "/" + n)
        else:
            open(d + "/" + n, "w").write(src)
    open(d + "/demo.sh", "w").write(demo)


COMPILE = r'''#!/bin/bash
# usage: demo.sh (cwd /repo, after the build)
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
B=/repo/_build
LIBS=$(for l in DataFlow/Mono/libphasar_mono DataFlow/PathSensitivity/libphasar_llvm_pathsensitivity DataFlow/IfdsIde/libphasar_llvm_ifdside TaintConfig/libphasar_taintconfig libphasar_llvm ControlFlow/libphasar_llvm_controlflow Pointer/libphasar_llvm_pointer TypeHierarchy/libphasar_llvm_typehierarchy DB/libphasar_llvm_db Passes/libphasar_passes Utils/libphasar_llvm_utils; do echo $B/lib/PhasarLLVM/$l.a; done; for l in ControlFlow/libphasar_controlflow Pointer/libphasar_pointer AnalysisStrategy/libphasar_analysis_strategy DB/libphasar_db Config/libphasar_config Utils/libphasar_utils; do echo $B/lib/$l.a; done)
/usr/bin/clang++-14 -std=c++17 -O0 -fPIC -fvisibility-inlines-hidden -DPHASAR_BUILD_DIR='"/repo/_build"' -DPHASAR_SRC_DIR='"/repo"' -D_GNU_SOURCE -DBOOST_GRAPH_DYN_LINK -DBOOST_REGEX_DYN_LINK -I/usr/lib/llvm-14/include -I/repo/include -I$B/include -I/repo/external/json/single_include -I"$D" -fuse-ld=lld -Wl,-rpath,/usr/lib/llvm-14/lib "$D/demo.cpp" -o "$W/demo" -Wl,--start-group $LIBS -Wl,--end-group -lstdc++fs /usr/lib/llvm-14/lib/libLLVM-14.so.1 /usr/lib/x86_64-linux-gnu/libsqlite3.so /usr/lib/x86_64-linux-gnu/libboost_graph.so.1.83.0 /usr/lib/x86_64-linux-gnu/libboost_regex.so.1.83.0 -lz3 -lpthread || exit 2
'''
RUN = COMPILE + 'cd "$W" && timeout 120 ./demo\n'
# run on in.json, compare the sorted output with expect.json
CMP = COMPILE + r'''cd "$W" && timeout 120 ./demo "$D/in.json" out.json || exit 1
python3 - "$D/expect.json" out.json <<'P'
import json, sys
def norm(x):
    if isinstance(x, dict): return {k: norm(v) for k, v in sorted(x.items())}
    if isinstance(x, list): return sorted((norm(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True)) if DEEP else [norm(v) for v in x]
    return x
DEEP = False
a, b = (norm(json.load(open(f))) for f in sys.argv[1:])
sys.exit(0 if a == b else 1)
P
'''
