from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
MODEL = {"WB": 8, "Chans": 3, "MaxD": 2, "MaxW": 3, "MaxH": 2}


def run(ctx):
    libs = ["Image", "Util", "Core"]
    ctx.build_libs(libs)
    exes = ctx.compile_many([(f"i01_{i}", libs, SAN, ["-lpng"]) for i in range(1, 7)])
    ctx.model("PixelFormatMC", cfg("MCSpec", MODEL if ctx.tier == "thorough" else dict(MODEL, MaxW=2), ["LayoutRight"]),
              label="every bit of every component has a place of its own, in formats of every kind")
    traces = []
    for i, exe in enumerate(exes):
        traces += ctx.play(exe, [], ctx.pick(60, 500), 25, ctx.pick(2, 6), f"i01-{i}")
    ctx.validate("PixelFormatTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["mem", "c"],
                 mutate_filter=lambda e, f: e["e"] == "read" and f == "c" or e["e"] == "write" and f == "mem" and len(e["mem"]) > 0)
    ctx.require_events(["write", "fill", "read", "attach", "describe"])
