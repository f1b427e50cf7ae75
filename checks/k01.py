from vp import cfg, trace_cfg

LEVEL = "model_checking"
INV = ["EveryExecutedOnce", "CountsAreTrue", "NonconcurAlone", "NotAllowedIsNonconcur", "NoDoubleExecution"]


def run(ctx):
    ctx.build_libs(["Core", "Log", "Check"])
    exe = ctx.compile("k01", ["Core", "Log", "Check"])
    c = {"MaxTests": ctx.pick(2, 3), "MaxReq": ctx.pick(2, 3), "MaxReps": 2, "Outcomes": '{"check", "throw"}'}
    ctx.model("TestRunner", cfg("MCSpec", c, INV, view="HideHist"), label="runner, all schedules and outcomes",
              allow_timeout=not ctx.quick, timeout=ctx.pick(300, 3 * 3600), heap="12g")
    c2 = {"MaxTests": ctx.pick(2, 3), "MaxReq": ctx.pick(2, 3), "MaxReps": 1, "Outcomes": "{}"}
    ctx.model("TestRunner", cfg("MCSpec", c2, INV, ["Terminates"], view="HideHist"), label="every run ends")
    scripts = ctx.gen_scripts("TestRunnerGen", cfg("MCSpec", {"MaxTests": 3, "MaxReq": 3, "MaxReps": 1, "Outcomes": "{}"},
                              action_constraints=["Emit"]), label="completion orders")
    more = ctx.gen_scripts("TestRunnerGen", cfg("MCSpec", {"MaxTests": 3, "MaxReq": 3, "MaxReps": 2, "Outcomes": "{}"},
                           action_constraints=["Emit"]), label="longer completion orders",
                           args=["-simulate", f"num={ctx.pick(600, 20000)}", "-depth", "120", "-seed", str(ctx.seed)])
    traces = ctx.play(exe, scripts + more, ctx.pick(400, 8000), 0, ctx.pick(7, 14), "k01")
    ctx.validate("TestRunnerTrace", trace_cfg(constants=c2, invariants=INV), traces,
                 mutate=ctx.pick(6, 12), mutate_field=["summary", "threads", "r", "ok", "ix", "thrown"])
    ctx.require_events(["begin", "fail", "end", "thread_end", "root_end", "return", "check"])
