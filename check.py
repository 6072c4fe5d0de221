#!/usr/bin/env python3
"""Usage: check.py PROPERTY [--tier quick|thorough]. Exit 0 held, 1 violated (VIOLATION line), 2 the machinery failed."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = importlib.import_module("vf.props." + a.property.lower())
    ctx = core.Ctx(a.property, a.tier, seed)
    try:
        return mod.check(ctx)
    except core.Found:
        return core.finish(ctx)
    except core.ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        if ctx.violations:
            return core.finish(ctx)
        return 2
    except Exception:
        traceback.print_exc()
        return 2

sys.exit(main())
