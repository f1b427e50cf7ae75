from vp import cfg, trace_cfg

SAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("c12", libs, SAN)
    base = {"Los": 40, "His": 300, "Radices": "{2, 3, 7, 8, 10, 16, 35, 36}", "MaxLen": 4, "Codes": "{48, 49, 65, 43, 45}", "MaxText": ctx.pick(4, 5)}
    q = {"MaxLen": ctx.pick(3, 4), "MaxSize": ctx.pick(12, 18)}
    ctx.model("ValueTextMC", cfg("VSpec", base, ["WrittenIs"]), label="texts of integers denote them, and only them")
    ctx.model("ValueTextMC", cfg("LSpec", base, ["ListIs"]), label="lists come back")
    ctx.model("ValueTextMC", cfg("SSpec", base, ["ShortIs"]), label="shortened lists come back and are shortest")
    ctx.model("QuotingMC", cfg("Spec", q, ["ReadsBack", "Closed", "Fits", "Enough", "Grows"]), label="quoted forms read back and fit")
    scripts = ctx.gen_scripts("ValueTextMC", cfg("TSpec", base, ["IntEmit"]), label="all short texts as integers")
    lists = dict(base, Codes="{48, 44, 32, 91, 93}", MaxText=ctx.pick(5, 6))
    scripts += ctx.gen_scripts("ValueTextMC", cfg("TSpec", lists, ["ListEmit"]), label="all short texts as lists", limit=ctx.pick(2500, 20000))
    scripts += ctx.gen_scripts("QuotingMC", cfg("Spec", q, ["EmitInv"]), label="all short strings, to be quoted", limit=ctx.pick(2500, 40000))
    traces = ctx.play(exe, scripts, ctx.pick(60, 900), 40, ctx.pick(7, 28), "c12")
    ctx.validate("ValueTextTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["v", "t", "texts", "vs", "same", "ok"],
                 mutate_filter=lambda e, f: (f == "v" and (e["e"] == "string" or e.get("ok") and e["e"] in ("parse", "flex", "value", "take")))
                 or (f == "t" and e["e"] in ("fmt", "list_fmt", "lista_fmt", "listv_fmt", "quote")) or f == "same" or (f == "ok" and e["e"] in ("list_parse", "lista_parse", "parse", "value", "take", "flex")))
    ctx.require_events(["fmt", "parse", "flex", "value", "take", "string", "list_fmt", "list_parse", "lista_fmt", "lista_parse", "listv_fmt", "listv_parse", "quote"])
