import json
import os
import re

import vp
from vp import cfg, trace_cfg

LEVEL = "model_checking"


def run(ctx):
    ctx.build_libs(["Core", "Log", "Check"])
    exe = ctx.compile("k03", ["Core", "Log", "Check"])
    run_c = {"NumTests": 2, "Reps": 2, "NumThreads": 2, "MaxFail": ctx.pick(1, 2), "Mapper": "TRUE", "Texts": "{}", "MaxText": 0}
    esc_c = dict(run_c, Texts='{"&", "<", ">", "\'", "\\"", "a", ";", "#", "amp;", "&lt;"}', MaxText=ctx.pick(3, 5))
    ctx.model("TestReportMC", cfg("RunSpec", run_c, ["XmlTrue", "LogTrue", "Complete"]), label="two tests, twice, by two threads",
              allow_timeout=not ctx.quick, timeout=ctx.pick(300, 2400))
    ctx.model("TestReportMC", cfg("RunSpec", dict(run_c, Reps=1, NumTests=2, MaxFail=ctx.pick(2, 3), Mapper="FALSE"), ["XmlTrue", "LogTrue", "Complete"]),
              label="several failures per test", allow_timeout=not ctx.quick, timeout=ctx.pick(300, 2400))
    ctx.model("TestReportMC", cfg("EscSpec", esc_c, ["EscUndone", "EscSafe"]), label="escaping is undone by unescaping")
    scripts = []
    for mapper in ("TRUE", "FALSE"):
        scripts += ctx.gen_scripts("TestReportMC", cfg("RunSpec", dict(run_c, NumTests=3, NumThreads=2, MaxFail=3, Mapper=mapper), action_constraints=["Emit"]),
                                   label="orders of failures", args=["-simulate", f"num={ctx.pick(250, 4000)}", "-depth", "60", "-seed", str(ctx.seed)])
    traces = ctx.play(exe, scripts, ctx.pick(150, 2500), 0, ctx.pick(7, 14), "k03")
    ctx.validate("TestReportTrace", trace_cfg(), traces, mutate=ctx.pick(6, 12), mutate_field=["text", "numbers", "ok", "c", "paths", "path"],
                 mutate_filter=lambda e, f: e["e"] != "call" or e["c"]["kind"] == "fail")
    ctx.require_events(["enter", "did", "passed", "call", "ran", "head", "line", "tail", "xml"])
    # The reports of checks that nothing is thrown
    for k, thrown in ((0, "Did throw Boom: bad"), (1, "Did throw exception of unknown type")):
        out = ctx.path(f"k03-nothrow-{k}.ndjson")
        more = ctx.record([(exe, [ctx.seed, 0, -1 - k, out], out)])
        known = [f for f in vp.known_findings("K03") if f.get("key") == "nothrow-macro-name"]
        try:
            ctx.validate("TestReportTrace", trace_cfg(), more)
        except vp.Violation as v:
            # Everything but the name of the macro must be right
            wrong = re.search(r'recorded <<\[line \|-> 3, path \|-> \\*"a.cpp\\*", msg \|-> \\*"ARCHON_CHECK_THROW_ANY\(f\(\)\) failed: ' + thrown + r'\\*"\]>>', v.what)
            if not (known and wrong):
                raise
            if known[0]["entry"] not in ctx.findings:
                ctx.findings.append(known[0]["entry"])
