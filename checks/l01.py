from vp import cfg, trace_cfg

SAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Log", "Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("l01", libs, SAN)
    ctx.model("LoggingMC", cfg("Spec", {"MaxMake": ctx.pick(3, 4), "Printing": "FALSE"}, ["Agrees", "Effective"]),
              label="all small arrangements of loggers")
    scripts = ctx.gen_scripts("LoggingMC", cfg("Spec", {"MaxMake": 2, "Printing": "TRUE"}, ["Emit"]), label="all arrangements of two loggers on two roots")
    scripts += ctx.gen_scripts("LoggingMC", cfg("Spec", {"MaxMake": ctx.pick(3, 4), "Printing": "TRUE"}, ["Emit"]),
                               args=["-simulate", f"num={ctx.pick(200, 3000)}", "-seed", str(ctx.seed)], label="sampled larger arrangements",
                               limit=ctx.pick(5000, 60000))
    traces = ctx.play(exe, scripts, ctx.pick(100, 900), 40, ctx.pick(7, 28), "l01")
    ctx.validate("LoggingTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["out", "limit", "will", "sel", "chans", "ok"],
                 mutate_filter=lambda e, f: e["e"] in ("log", "query", "make"))
    ctx.require_events(["reset", "make", "set", "log", "query"])
