from vp import cfg, trace_cfg

SAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("p02", libs, SAN)
    invs = ["Accepted", "Sane", "Accounted", "Equivalent", "Mobile"]
    scripts = []
    for which in (1, 2, 3):
        ctx.model("CliMC", cfg("Spec", {"MaxArgs": 3, "Which": which, "Printing": "FALSE"}, invs),
                  label=f"all short command lines, specification {which}")
        scripts += ctx.gen_scripts("CliMC", cfg("Spec", {"MaxArgs": ctx.pick(2, 3), "Which": which, "Printing": "TRUE"}, ["Emit"]),
                                   label=f"all command lines of some length for specification {which}")
    traces = ctx.play(exe, scripts, ctx.pick(300, 1200), ctx.pick(20, 25), ctx.pick(7, 28), "p02")
    ctx.validate("CliTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["ret", "status", "log", "vars"],
                 mutate_filter=lambda e, f: e["e"] == "process")
    ctx.require_events(["reset", "process"])
