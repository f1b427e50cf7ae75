#!/usr/bin/env python3
"""run.py <property id> : runs the check of one property. See DESIGN.md."""
import importlib.util
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.dont_write_bytecode = True
import vp  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    path = os.path.join(HERE, prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ctx = vp.Ctx(prop, tier, seed)
    level = getattr(mod, "LEVEL", "model_checking")
    try:
        mod.run(ctx)
    except vp.Violation as v:
        ctx.evidence(level, 1)
        print(v.what[:4000])
        print(f"VIOLATION property={prop} replay={v.replay}", flush=True)
        return 1
    except vp.CheckError as e:
        print(f"ERROR property={prop}: {e}", file=sys.stderr, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    ctx.evidence(level, 0)
    for f in ctx.findings:
        print(f"KNOWN-FINDING: property={prop} {f}")
    print(f"OK property={prop} events={ctx.events} traces={ctx.traces} states={ctx.distinct} "
          f"wall={ctx.evidence and round(__import__('time').time() - ctx.t0, 1)}s")
    return 0


sys.exit(main())
