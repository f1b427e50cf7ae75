from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Render"])
    exe = ctx.compile("r01", ["Render", "Display", "Core"], SAN)
    c = {"Keys": "{0, 1}", "Modes": "{0, 1}", "MaxMult": 2, "Handlers": "{1, 2}", "MaxBinds": ctx.pick(2, 3), "MaxOps": 14}
    ctx.model("KeyBindingsMC", cfg("MCSpec", c, ["ToldIsSlot", "NothingHeldAfterBlur"], ["Pairs", "BlurReleasesAll"],
                                   view="Shape", action_constraints=["Short"]),
              label="presses and releases reach handlers in pairs")
    scripts = ctx.gen_scripts("KeyBindingsMC", cfg("MCSpec", dict(c, MaxBinds=2, MaxOps=ctx.pick(9, 11)), view="Shape", action_constraints=["Short", "Emit"]),
                              label="one script per transition", limit=ctx.pick(12000, 100000))
    traces = ctx.play(exe, scripts, ctx.pick(250, 5000), 120, ctx.pick(7, 28), "r01")
    ctx.validate("KeyBindingsTrace", trace_cfg(constants={"Keys": "{0, 1, 2, 3, 4}"}), traces,
                 mutate=ctx.pick(8, 20), mutate_field=["c", "r"])
    ctx.require_events(["bind", "mode", "down", "up", "blur", "resume"])
