from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("c04", ["Core"], SAN)
    c = {"MaxKey": ctx.pick(5, 6), "Vals": "{1, 2}", "MaxRanges": ctx.pick(4, 6)}
    ctx.model("RangeMap", cfg("MCSpec", c, ["Agree", "Formed", "DefragMerges"], action_constraints=["Small"],
              view="Shape"), label="cutting and filling equals the pointwise map")
    scripts = ctx.gen_scripts("RangeMap", cfg("MCSpec", dict(c, MaxKey=5, MaxRanges=ctx.pick(3, 5)),
                              action_constraints=["Small", "Emit"], view="Shape"), label="one script per transition",
                              limit=ctx.pick(8000, 60000))
    traces = ctx.play(exe, scripts, ctx.pick(140, 3000), 60, ctx.pick(7, 28), "c04")
    ctx.validate("RangeMapTrace", trace_cfg(constants=dict(c, MaxKey=23)), traces,
                 mutate=ctx.pick(6, 12), mutate_field=["rs", "out", "c"])
    ctx.require_events(["update", "defrag"])
