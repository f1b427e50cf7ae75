from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
LAWS = ["MultiplicativeDet", "TransposeLaws", "AdjLaw", "TraceLaw", "AssocLaw", "OuterLaw", "OrderLaw", "SwapLaw", "CornerLaw"]


def run(ctx):
    libs = ["Math", "Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("m01", libs, SAN)
    base = {"Nums": "{0, 1, 2}", "Size": 2, "Many": 81, "Few": 81, "QNums": "{0, 1, 2}"}
    ctx.model("AlgebraMC", cfg("Spec", base, LAWS), label="laws, all matrices of order 2")
    ctx.model("AlgebraMC", cfg("Spec", dict(base, Nums="{0, 1, 2, 4}", Size=3, Many=ctx.pick(200, 3000), Few=ctx.pick(10, 40)), LAWS), label="laws, order 3")
    ctx.model("AlgebraMC", cfg("Spec", dict(base, Nums="{0, 1, 2, 3}", Size=4, Many=ctx.pick(40, 400), Few=ctx.pick(5, 20)), LAWS), label="laws, order 4")
    ctx.model("AlgebraMC", cfg("QSpec", dict(base, QNums="{0, 1, 2, 4}", Many=ctx.pick(60, 256), Few=ctx.pick(10, 256)), ["NormLaw", "ConjLaw", "RotLaw", "CrossLaw", "PerpLaw", "TurnLaw"]), label="laws of quaternions and rotations")
    traces = ctx.play(exe, [], ctx.pick(35, 500), 40, ctx.pick(7, 28), "m01")
    ctx.validate("AlgebraTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["r"],
                 mutate_filter=lambda e: e["e"] == "op" and e["o"] in ("vadd", "matmat", "matvec", "det", "transpose", "outer", "qmul", "turns", "cross"))
    ctx.require_events(["op", "inv", "triinv", "lu", "mod"])
