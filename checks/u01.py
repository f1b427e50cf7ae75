from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("u01", ["Core"], SAN)
    c = {"MaxRects": ctx.pick(3, 4), "MaxSide": ctx.pick(2, 3), "MaxBin": ctx.pick(5, 6), "MaxSpace": 1}
    ctx.model("RectPackMC", cfg("MCSpec", c, ["DesignRight"]), label="first fit into a tree of free areas packs right")
    scripts = ctx.gen_scripts("RectPackMC", cfg("MCSpec", dict(c, MaxRects=3, MaxSide=2), ["EmitInv"]),
                              label="small packing problems", limit=ctx.pick(2500, 30000))
    traces = ctx.play(exe, scripts, ctx.pick(90, 2000), 25, ctx.pick(7, 28), "u01")
    ctx.validate("RectPackTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["used"],
                 mutate_filter=lambda e: e.get("ok") and len(e["places"]) > 0)
    ctx.require_events(["add", "clear", "pack", "suggest"])
