from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("c03", ["Core"], SAN)
    c = {"Keys": "{1, 2, 3, 4}", "MaxLen": ctx.pick(6, 8)}
    ctx.model("FlatContainer", cfg("MCSpec", c, ["Sorted", "Unique", "Stable", "SearchIsRight"],
              action_constraints=["Bound"], view="KeysView"), label="ordered contents; binary searches are right")
    scripts = ctx.gen_scripts("FlatContainer", cfg("MCSpec", dict(c, MaxLen=ctx.pick(4, 6)),
                              action_constraints=["Bound", "Emit"], view="KeysView"), label="one script per transition",
                              limit=ctx.pick(1200, 20000))
    traces = ctx.play(exe, scripts, ctx.pick(240, 4000), 100, ctx.pick(7, 28), "c03")
    ctx.validate("FlatContainerTrace", trace_cfg(constants={"Keys": "{}", "MaxLen": 0}), traces,
                 mutate=ctx.pick(6, 12), mutate_field=["c", "lo", "up", "find", "count", "pos", "ins", "live"])
    ctx.require_events(["insert", "range", "create", "assign", "erase", "clear", "room", "look"])
