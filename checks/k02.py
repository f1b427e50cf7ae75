from vp import cfg, trace_cfg

SAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Check", "Log", "Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("k02", libs, SAN, link=["-pthread"])
    invs = ["Right", "Sound", "Stable", "Everything"]
    base = {"Letters": "{97, 98}", "MaxFilter": ctx.pick(4, 6), "MaxName": 2, "NumTests": 3, "NumOrder": 2, "Sample": "TRUE"}
    ctx.model("TestSelectMC", cfg("MCSpec", base, invs), label="selection and order, sampled filters, orders and tests", args=["-seed", str(ctx.seed)])
    ctx.model("TestSelectMC", cfg("MCSpec", dict(base, Sample="FALSE", MaxFilter=ctx.pick(2, 3), MaxName=1, NumTests=2, NumOrder=1, Letters="{97, 98}"), invs),
              label="selection and order, all small filters, orders and tests")
    scripts = ctx.gen_scripts("TestSelectMC", cfg("EmitSpec", dict(base, MaxFilter=5), ["EmitInv"]), args=["-seed", str(ctx.seed)],
                              label="filters, orders and tests", limit=ctx.pick(1500, 1500))
    traces = ctx.play(exe, scripts, ctx.pick(1500, 30000), 0, ctx.pick(7, 14), "k02")
    ctx.validate("TestSelectTrace", trace_cfg(), traces,
                 mutate=ctx.pick(8, 20), mutate_field=["r", "begins", "summary", "status"],
                 mutate_filter=lambda e, f: f in ("r", "status") or (e["e"] == "command" and f == "begins") or (e["e"] == "run" and not e["error"]))
    ctx.require_events(["include", "less", "run", "command"])
