from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("c09", libs, SAN)
    base = {"ByteSet": "{0, 1, 63, 128, 251, 255}", "MaxBytes": ctx.pick(3, 5), "CharSet": "{65, 81, 103, 43, 45, 61, 10, 33}", "MaxText": ctx.pick(4, 5)}
    ctx.model("Base64MC", cfg("Spec", base, ["RoundTrip", "SizeRight"]), label="what was encoded is recovered")
    ctx.model("Base64MC", cfg("TSpec", base, ["Canonical"]), label="nothing else is accepted")
    scripts = ctx.gen_scripts("Base64MC", cfg("TSpec", base, ["EmitInv"]), label="all short texts", limit=ctx.pick(4000, 60000))
    traces = ctx.play(exe, scripts, ctx.pick(500, 6000), 1, ctx.pick(7, 28), "c09")
    ctx.validate("Base64Trace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["out"],
                 mutate_filter=lambda e: e["e"] in ("encode", "decode", "iencode") and len(e["out"]) > 0)
    ctx.require_events(["encode", "encodeto", "iencode", "decode", "decodeto", "idecode", "esize", "dsize"])
