from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("c14", libs, SAN)
    small = {"Spaces": "{0, 1, 2}", "Sizes": "{0, 1, 3}", "Lines": "{0, 2, 4}", "Trails": "{0, 2}", "MaxWords": 3}
    longer = {"Spaces": "{1}", "Sizes": "{1, 2, 5}", "Lines": "{4, 5, 9}", "Trails": "{0, 1}", "MaxWords": ctx.pick(4, 6)}
    invs = ["GreedyIsWrapping", "GreedyShortest", "LeastIsLeast"]
    ctx.model("WordWrapMC", cfg("Spec", small, invs), label="all texts of up to 3 words, with odd sizes")
    ctx.model("WordWrapMC", cfg("Spec", longer, invs), label="all texts of more words")
    scripts = ctx.gen_scripts("WordWrapMC", cfg("Spec", small, ["EmitInv"]), label="all short texts", limit=ctx.pick(1500, 40000))
    scripts += ctx.gen_scripts("WordWrapMC", cfg("Spec", longer, ["EmitInv"]), label="longer texts", limit=ctx.pick(1500, 40000))
    traces = ctx.play(exe, scripts, ctx.pick(100, 1500), 10, ctx.pick(7, 28), "c14")
    ctx.validate("WordWrapTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["badness", "bp"],
                 mutate_filter=lambda e: e["e"] == "greedy" and len(e["bp"]) > 0 or e["e"] == "knuth" and len(e["ws"]) > 1)
    ctx.require_events(["greedy", "knuth"])
    fmt = ctx.play(exe, [], ctx.pick(250, 3000), 6, ctx.pick(7, 28), "c14f", env={"VP_FORMATTER": "1"})
    ctx.validate("TextFormatTrace", trace_cfg(), fmt, mutate=ctx.pick(6, 16), mutate_field=["out"], mutate_filter=lambda e: e["e"] in ("line", "lines"))
    ctx.require_events(["line", "lines"])
