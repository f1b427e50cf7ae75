from vp import cfg, trace_cfg
from p01 import pattern_models

SAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("p03", libs, SAN)
    pattern_models(ctx)
    base = {"Words": '{"a", "V"}', "Printing": "TRUE", "MaxLen": 6}
    scripts = ctx.gen_scripts("CliPatternMC", cfg("Spec", dict(base, MaxTok=ctx.pick(6, 7), Semi="FALSE"), ["Emit"], constraints=["Hopeful"]),
                              label="all short pattern texts", limit=ctx.pick(2500, 12000))
    scripts += ctx.gen_scripts("CliPatternMC", cfg("Spec", dict(base, MaxTok=ctx.pick(5, 6), Semi="TRUE"), ["Emit"], constraints=["Hopeful"]),
                               label="all pairs of short pattern texts", limit=ctx.pick(2500, 12000))
    traces = ctx.play(exe, scripts, ctx.pick(400, 1500), ctx.pick(10, 20), ctx.pick(7, 28), "p03")
    ctx.validate("CliTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["codes"],
                 mutate_filter=lambda e, f: e["e"] == "reset")
    ctx.require_events(["reset"])
