from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("c01", ["Core"], SAN)
    ctx.model("SeqContainer", cfg("MCSpec", {"MaxLen": ctx.pick(2, 3), "Values": "{1, 2}"},
              ["OnlyValuesPutIn", "LessIsTotalOrder"], action_constraints=["Bound"], view="ViewC"),
              label="sequences, all operations", timeout=ctx.pick(200, 3600))
    ctx.model("DequeGen", cfg("Spec", {"MaxAlloc": ctx.pick(7, 10)}, ["Refines"], constraints=["Bound"], view="View"),
              label="circular storage refines sequence")
    scripts = ctx.gen_scripts("DequeGen", cfg("Spec", {"MaxAlloc": ctx.pick(7, 11)}, constraints=["Bound"],
                              action_constraints=["Emit"], view="View"), label="one script per placement transition")
    traces = ctx.play(exe, scripts, ctx.pick(120, 2000), 120, ctx.pick(7, 28), "c01")
    c = {"MaxLen": 0, "Values": "{}"}
    ctx.validate("SeqContainerTrace", trace_cfg(constants=c, invariants=[]), traces,
                 mutate=ctx.pick(6, 12), mutate_field=["c", "live", "size", "rev", "cmp", "bad"])
    ctx.require_events(["op", "look"])
