from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("c06", ["Core"], SAN, link=["-Wl,--wrap=read,--wrap=write"])
    c = {"BufSize": 2, "MaxBytes": ctx.pick(4, 5)}
    ctx.model("TextFileGen", cfg("GSpec", c, ["Refines"], constraints=["Bound"], view="Shape"),
              label="the buffering layer is invisible")
    c3 = dict(c, BufSize=3)
    ctx.model("TextFileGen", cfg("GSpec", c3, ["Refines"], constraints=["Bound"], view="Shape"),
              label="the buffering layer is invisible (buffer of 3)")
    scripts = ctx.gen_scripts("TextFileGen", cfg("GSpec", c, constraints=["Bound"],
                              action_constraints=["Emit"], view="Shape"), label="one script per transition",
                              limit=ctx.pick(5000, 40000))
    traces = ctx.play(exe, scripts, ctx.pick(250, 5000), 60, ctx.pick(7, 28), "c06")
    ctx.validate("TextFileTrace", trace_cfg(), traces,
                 mutate=ctx.pick(8, 20), mutate_field=["r", "p", "d"], mutate_filter=lambda e: e["e"] not in ("reset", "write", "close", "seek", "save") and e.get("ok") != 0)
    ctx.require_events(["read", "read_some", "read_line", "read_all", "peek", "write", "flush", "tell", "seek", "close",
                        "open", "save", "load"])
