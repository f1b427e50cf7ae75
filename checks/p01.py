from vp import cfg, trace_cfg

SAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def pattern_models(ctx):
    base = {"Words": '{"a", "V"}', "Printing": "FALSE"}
    one = dict(base, MaxTok=ctx.pick(6, 7), MaxLen=ctx.pick(7, 8), Semi="FALSE")
    two = dict(base, MaxTok=ctx.pick(5, 6), MaxLen=6, Semi="TRUE")
    ctx.model("CliPatternMC", cfg("Spec", one, ["Good"], constraints=["Hopeful"]), label="one pattern: automaton, meaning, ambiguities")
    ctx.model("CliPatternMC", cfg("Spec", two, ["Good"], constraints=["Hopeful"]), label="two patterns: ambiguity across")


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("p01", libs, SAN)
    pattern_models(ctx)
    traces = ctx.play(exe, [], ctx.pick(300, 1200), ctx.pick(20, 25), ctx.pick(7, 28), "p01")
    ctx.validate("CliTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["ret", "status", "log", "vars"],
                 mutate_filter=lambda e, f: e["e"] == "process")
    ctx.require_events(["reset", "process"])
