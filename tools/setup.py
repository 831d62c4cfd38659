#!/usr/bin/env python3
"""Build phasar's libraries from /repo and every harness, in parallel."""
import concurrent.futures as cf, glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vf
vf.build_libs()
names = sorted(os.path.splitext(os.path.basename(p))[0] for p in glob.glob(os.path.join(V, "harness", "*.cpp")))
with cf.ThreadPoolExecutor(6) as ex:
    for n, f in [(n, ex.submit(vf.harness, n)) for n in names]:
        f.result()
        print("built", n, flush=True)
