from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Util", "Math", "Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("u04", libs, SAN)
    base = {"Pieces": "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}", "MaxPieces": 3, "Digits": "{48, 57, 97, 70, 103, 32}", "MaxDigits": 4, "Comps": "{0, 1, 16, 17, 51, 128, 200, 238, 254, 255}"}
    fun = dict(base, Pieces="{5, 6, 8, 9, 10}" if ctx.tier == "quick" else "{5, 6, 7, 8, 9, 10, 12}", MaxPieces=ctx.pick(9, 10))
    ctx.model("CssColorMC", cfg("CSpec", base, ["WrittenIs", "GrayIs"]), label="what is written for a color denotes it")
    scripts = ctx.gen_scripts("CssColorMC", cfg("Spec", base, ["EmitInv"]), label="all short sequences of pieces", limit=ctx.pick(1000, 5000))
    scripts += ctx.gen_scripts("CssColorMC", cfg("HSpec", base, ["HEmit"]), label="hexadecimal forms", limit=ctx.pick(1500, 5000))
    scripts += ctx.gen_scripts("CssColorMC", cfg("FSpec", fun, ["FEmit"]), label="functional forms", limit=ctx.pick(3000, 60000))
    traces = ctx.play(exe, scripts, ctx.pick(60, 800), 30, ctx.pick(7, 28), "u04")
    ctx.validate("CssColorTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["back", "v", "before"],
                 mutate_filter=lambda e, f: e["e"] == "format" or e["e"] == "byname" and e["ok"])
    ctx.require_events(["parse", "format", "byname", "byvalue", "names"])
