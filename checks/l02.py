from vp import cfg, trace_cfg

SAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Log", "Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("l02", libs, SAN, link=["-pthread"])
    invs = ["InOrder", "Whole", "All"]
    base = {"Roots": "{1, 2}", "Levels": "{3, 4, 5, 6, 7}", "Printing": "FALSE"}
    for threads, msgs, changes in [("{1, 2}", 2, 2), ("{1, 2}", 3, 0)] + ctx.pick([("{1, 2, 3}", 1, 1)], [("{1, 2, 3}", 2, 0), ("{1, 2, 3}", 2, 1)]):
        ctx.model("LogConcMC", cfg("Spec", dict(base, Threads=threads, Msgs=msgs, Changes=changes), invs, ["Allowed", "Terminates"], view="HideHist"),
                  label=f"all schedules of threads {threads}, {msgs} messages each, {changes} changes of the limit")
    scripts = []
    for threads, changes in (("{1, 2}", 1), ("{1, 2, 3}", 1)):
        scripts += ctx.gen_scripts("LogConcMC", cfg("Spec", dict(base, Threads=threads, Msgs=2, Changes=changes, Printing="TRUE"), ["Emit"]),
                                   args=["-simulate", f"num={ctx.pick(700, 8000)}", "-depth", "120", "-seed", str(ctx.seed)], label=f"schedules of threads {threads}")
    traces = ctx.play(exe, scripts, ctx.pick(150, 2000), ctx.pick(60, 800), ctx.pick(7, 14), "l02")
    ctx.validate("LogConcTrace", trace_cfg(constants={"Threads": "{1, 2, 3, 4, 5, 6}", "Roots": "{1, 2}", "Levels": "{3, 4, 5, 6, 7}"}, invariants=["InOrder"]), traces,
                 mutate=ctx.pick(8, 20), mutate_field=["text", "out", "lines"], mutate_filter=lambda e, f: e["e"] in ("enter", "all"))
    ctx.require_events(["reset", "submit", "enter", "leave", "done", "set", "all"])
