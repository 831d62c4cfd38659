#!/usr/bin/env python3
"""check.py <property id>: run one check (tier and seed from VERIF_TIER/VERIF_SEED)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf


def main():
    prop = sys.argv[1]
    try:
        mod = importlib.import_module(prop.lower())
        ctx = vf.Ctx(prop, getattr(mod, "LEVEL", "model_checking"))
        mod.run(ctx)
        return ctx.finish()
    except vf.CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
