from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Image", "Util", "Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("i04", libs, SAN, ["-lpng"])
    ctx.model("PixelFormatMC", cfg("MCSpec", {"WB": 8, "Chans": 3, "MaxD": 2, "MaxW": 2, "MaxH": 2}, ["LayoutRight"]),
              label="every bit of every component has a place of its own, in formats of every kind")
    traces = ctx.play(exe, [], ctx.pick(120, 2000), 25, ctx.pick(7, 21), "i04")
    ctx.validate("PixelFormatTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["valid"],
                 mutate_filter=lambda e: e["e"] == "cast" and e["ok"])
    ctx.require_events(["cast"])
