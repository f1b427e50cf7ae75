from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("u02", ["Core"], SAN)
    for k, side, n in ctx.pick([(1, 3, 4), (2, 2, 4), (3, 1, 4)], [(1, 4, 6), (2, 2, 5), (2, 3, 4), (3, 1, 5)]):
        ctx.model("KdTreeMC", cfg("MCSpec", {"K": k, "Side": side, "MaxPts": n}, ["DesignRight"]),
                  label=f"pruned search in any tree of up to {n} points in {k} dimensions finds the closest")
    scripts = []
    for k, side, n in ctx.pick([(1, 2, 5), (2, 1, 5), (2, 2, 3), (3, 1, 3)], [(1, 3, 7), (2, 1, 7), (2, 2, 5), (3, 1, 5)]):
        scripts += ctx.gen_scripts("KdTreeMC", cfg("GenSpec", {"K": k, "Side": side, "MaxPts": n}, ["EmitInv"]),
                                   label=f"all multisets of up to {n} points in {k} dimensions", limit=ctx.pick(250, 3000))
    traces = ctx.play(exe, scripts, ctx.pick(130, 2500), 20, ctx.pick(7, 28), "u02")
    ctx.validate("KdTreeTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["ok", "sq"],
                 mutate_filter=lambda e: e.get("ok"))
    ctx.require_events(["sort", "find"])
