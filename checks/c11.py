from vp import cfg, trace_cfg

UB = ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exes = ctx.compile_many([("c11", ["Core"], UB + [f"-DPART={i}"]) for i in range(3)])
    ctx.model("BigIntMC", cfg("Spec", {"Part": 4, "Parts": ctx.pick(3, 4)}, ["Agree", "Algorithms"]),
              label="big numbers agree with integers; multi-part algorithms agree with plain arithmetic", timeout=700)
    traces = []
    for i, exe in enumerate(exes):
        traces += ctx.play(exe, [], ctx.pick(250, 4000), 60, ctx.pick(3, 10), f"c11-{i}")
    ctx.validate("IntegerArithTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["r", "ok", "m", "sr", "sl", "hd", "up"])
    ctx.require_events(["checked", "compare", "cast", "twos", "rounddiv", "roundhalf", "pmod", "sqrt", "bits", "type", "mask",
                        "extend", "logic", "logicr", "mp"])
