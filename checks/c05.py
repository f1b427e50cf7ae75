from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("c05", ["Core"], SAN)
    c = {"Chars": "{1, 2}", "MaxLen": ctx.pick(4, 5)}
    ctx.model("MemStream", cfg("MCSpec", c, ["SizeIsMax", "InRange"], ["FailedSeekChangesNothing"],
              action_constraints=["Short"], view="Shape"),
              label="size is the highest position reached; failed seeks change nothing")
    scripts = ctx.gen_scripts("MemStream", cfg("MCSpec", dict(c, Chars="{1}", MaxLen=4),
                              action_constraints=["Short", "Emit"], view="Shape"), label="one script per transition",
                              limit=ctx.pick(8000, 60000))
    traces = ctx.play(exe, scripts, ctx.pick(300, 6000), 60, ctx.pick(7, 28), "c05")
    ctx.validate("MemStreamTrace", trace_cfg(constants=dict(c, MaxLen=100)), traces,
                 mutate=ctx.pick(8, 20), mutate_field=["r", "v", "st"])
    ctx.require_events(["read", "peek", "unget", "seek", "tell", "write", "append", "reserve", "clear_contents",
                        "full_clear", "state"])
