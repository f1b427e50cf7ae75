from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx, name, fields, events, mfilter=None):
    ctx.build_libs(["Image", "Util", "Core"])
    exe = ctx.compile(name, ["Image", "Util", "Core"], SAN, ["-lpng"])
    ctx.model("ImageAccessMC", cfg("MCSpec", {"Side": 2, "Colors": "{1, 2}", "Steps": ctx.pick(1, 2)},
                                   ["Frame", "Effect", "Defined"] + ([] if ctx.tier == "thorough" else ["PlaneRight", "FoldRight"])),
              label="a small image written to in every way: exactly the box changes")
    if ctx.tier == "thorough":
        ctx.model("ImageAccessMC", cfg("MCSpec", {"Side": 3, "Colors": "{1}", "Steps": 1}, ["Frame", "Effect", "PlaneRight", "FoldRight"]),
                  label="the plane around a small image")
    scripts = ctx.gen_scripts("ImageAccessMC", cfg("GenSpec", {"Side": 3, "Colors": "{1}", "Steps": 0}, ["EmitInv"]),
                              label="blocks at every position around every small image, in all falloff modes", limit=ctx.pick(28, 144))
    traces = ctx.play(exe, scripts, ctx.pick(200, 3000), 45, ctx.pick(7, 28), name)
    ctx.validate("ImageAccessTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=fields, mutate_filter=mfilter)
    ctx.require_events(events)
