from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    ctx.build_libs(["Core"])
    exe = ctx.compile("c13", ["Core"], SAN)
    c = {"Letters": "{97, 98}", "MaxPat": 3, "NumPats": 2, "MaxStr": ctx.pick(4, 6)}
    ctx.model("StringMatcherMC", cfg("MCSpec", c, ["Decides", "SoundAmbiguity", "CompleteAmbiguity"]),
              label="sets of positions decide matches and ambiguity")
    scripts = ctx.gen_scripts("StringMatcherMC", cfg("GenSpec", dict(c, MaxStr=0), ["EmitInv"]),
                              label="all pairs of patterns of up to 3 symbols")
    if ctx.tier == "thorough":
        scripts += ctx.gen_scripts("StringMatcherMC", cfg("GenSpec", dict(c, NumPats=3, MaxPat=2, MaxStr=0), ["EmitInv"]),
                                   label="all triples of patterns of up to 2 symbols")
    traces = ctx.play(exe, scripts, ctx.pick(150, 3000), 20, ctx.pick(7, 28), "c13")
    ctx.validate("StringMatcherTrace", trace_cfg(), traces,
                 mutate=ctx.pick(8, 20), mutate_field=["r", "ok"])
    ctx.require_events(["build", "match"])
