from vp import cfg, trace_cfg

UB = ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("u03", ["Core"], UB)
    ctx.model("PixelBoxMC", cfg("Spec", {"High": ctx.pick(3, 7)}, ["Sets", "Algorithms"]),
              label="geometry means sets of pixels; comparisons within a small integer type")
    traces = ctx.play(exe, [], ctx.pick(90, 1500), 60, ctx.pick(7, 28), "u03")
    ctx.validate("PixelBoxTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20),
                 mutate_field=["r", "valid", "empty", "isect", "cont", "pix", "ok", "clip", "splice", "cmp", "add", "sub"])
    ctx.require_events(["box", "can", "arith", "compare", "size"])
