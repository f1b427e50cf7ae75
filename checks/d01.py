from vp import cfg, trace_cfg

UB = ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("d01", ["Core"], UB)
    scripts = []
    for m, t in ctx.pick([(2, 6), (4, 9), (8, 20)], [(2, 12), (4, 20), (8, 36)]):
        c = {"M": m, "MaxTime": t, "MaxLen": 3}
        ctx.model("TimestampMC", cfg("MCSpec", dict(c, MaxLen=4), ["Recovered"], view="MCView"), label=f"wrap-arounds are estimated right, period {m}")
        scripts += ctx.gen_scripts("TimestampMC", cfg("MCSpec", c, ["EmitInv"]), label=f"histories, period {m}", limit=ctx.pick(500, 10000))
    traces = ctx.play(exe, scripts, ctx.pick(250, 5000), 25, ctx.pick(7, 28), "d01")
    ctx.validate("TimestampTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["r"], mutate_filter=lambda e: e["r"]["m"])
    ctx.require_events(["unwrap"])
