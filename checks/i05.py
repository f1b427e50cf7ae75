from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
KINDS = "{1, 2, 4, 8, 16, 208, 216, 301, 302, 304, 408, 416, 608, 616}"


def run(ctx):
    libs = ["Image", "Util", "Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("i05", libs, SAN, ["-lpng", "-lz"])
    n = ctx.pick(6, 10)
    base = {"MaxW": n, "MaxH": n, "Kinds": KINDS, "Seeds": "{1, 2}" if ctx.quick else "{1, 2, 3, 4, 5, 6}", "MaxN": 2, "Values": "{0}"}
    ctx.model("PngImageMC", cfg("Spec", base, ["DecodesBack", "Cover"]), label="files made of pictures are of those pictures")
    ctx.model("PngImageMC", cfg("Spec", dict(base, MaxW=ctx.pick(17, 33), MaxH=ctx.pick(17, 33), Kinds="{8}", Seeds="{1}"), ["Cover"]), label="interlacing visits each pixel once")
    ctx.model("PngImageMC", cfg("FSpec", dict(base, MaxN=ctx.pick(3, 4), Values="{0, 1, 100, 180, 255}"), ["FilterInverse"]), label="filtering can be undone")
    small = dict(base, MaxW=ctx.pick(5, 9), MaxH=ctx.pick(5, 9))
    scripts = ctx.gen_scripts("PngImageMC", cfg("Spec", small, ["EmitInv"]), label="files of small pictures of all kinds", limit=ctx.pick(1400, 12000))
    traces = ctx.play(exe, scripts, ctx.pick(30, 200), 60, ctx.pick(7, 28), "i05")
    ctx.validate("PngImageTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["ok", "lok", "same", "prefix", "sound", "untouched", "inter", "pic", "back"])
    ctx.require_events(["load", "save", "large", "damage", "savefail", "empty"])
