from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("c15", libs, SAN)
    base = {"Chars": "{64, 123, 125, 120, 97, 98}", "MaxItems": ctx.pick(4, 5), "MaxText": ctx.pick(5, 6)}
    ctx.model("StringTemplateMC", cfg("Spec", base, ["Unambiguous"]), label="the notation is unambiguous")
    scripts = ctx.gen_scripts("StringTemplateMC", cfg("TSpec", base, ["EmitInv"]), label="all short texts", limit=ctx.pick(4000, 60000))
    traces = ctx.play(exe, scripts, ctx.pick(60, 800), 40, ctx.pick(7, 28), "c15")
    ctx.validate("StringTemplateTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["out", "r", "ok"],
                 mutate_filter=lambda e, f: f == "out" or e["e"] in ("refers", "define") or (f == "ok" and e["e"] == "parse"))
    ctx.require_events(["set", "define", "parse", "expand", "refers", "move"])
