from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("c02", ["Core"], SAN)
    for ns in (0, 2):
        ctx.model("VectorGen", cfg("Spec", {"NS": ns, "MaxCap": ctx.pick(3, 6)}, ["Fits", "Refines", "NothingBeyond"],
                  constraints=["Bound"], view="Shape"), label=f"storage refines sequence, {ns} in place")
    scripts = ctx.gen_scripts("VectorGen", cfg("Spec", {"NS": 2, "MaxCap": ctx.pick(4, 6)}, constraints=["Bound"],
                              action_constraints=["Emit"], view="Shape"), label="one script per storage transition",
                              limit=ctx.pick(6000, 40000))
    traces = ctx.play(exe, scripts, ctx.pick(160, 2400), 120, ctx.pick(7, 28), "c02")
    c = {"MaxLen": 0, "Values": "{}"}
    ctx.validate("SeqContainerTrace", trace_cfg(constants=c, invariants=[]), traces,
                 mutate=ctx.pick(6, 12), mutate_field=["c", "live", "size", "rev", "cmp", "bad", "kept"])
    ctx.require_events(["op", "look"])
