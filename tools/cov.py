#!/usr/bin/env python3
"""cov.py OUT ID... : runs the drivers of the quick checks ID... instrumented for line coverage
(no model checking, no trace validation) and writes OUT/<ID>.info, lcov tracefiles over the
repository's sources. Development aid; nothing registered uses it."""
import importlib.util
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.abspath(sys.argv[1])
os.makedirs(OUT, exist_ok=True)
os.environ.update(VP_BUILD=OUT + "/build", VP_CXXFLAGS="--coverage -fno-inline -O0", VP_LIBFLAGS="--coverage -O0",
                  VP_REPLAY=OUT + "/replay", VP_EVIDENCE=OUT + "/evidence")
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.dont_write_bytecode = True
import vp  # noqa: E402

vp.Ctx.validate = lambda self, *a, **k: None
vp.Ctx.require_events = lambda self, *a, **k: None
if not os.environ.get("KEEP_MODEL"):
    vp.Ctx.model = lambda self, *a, **k: ""

for prop in sys.argv[2:]:
    subprocess.run(["find", OUT + "/build", "-name", "*.gcda", "-delete"])
    path = os.path.join(os.path.dirname(HERE), "checks", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ctx = vp.Ctx(prop, "quick", 1)
    try:
        mod.run(ctx)
    except BaseException as e:
        print(prop, "ended with", repr(e)[:500])
    r = subprocess.run(["lcov", "-q", "-c", "-d", OUT + "/build", "-o", f"{OUT}/{prop}.raw", "--ignore-errors",
                        "mismatch,gcov,source,negative,inconsistent,unused,empty"], capture_output=True, text=True)
    r2 = subprocess.run(["lcov", "-q", "-e", f"{OUT}/{prop}.raw", "/repo/src/*", "-o", f"{OUT}/{prop}.info",
                         "--ignore-errors", "inconsistent,unused,empty"], capture_output=True, text=True)
    print(prop, r.returncode, r2.returncode, r.stderr[-300:] if r.returncode else "", flush=True)
