import os
from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Image", "Util", "Core"]
    ctx.build_libs(libs)
    other = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "i06_b.cpp")
    exe = ctx.compile("i06", libs, SAN, [os.path.abspath(other), "-lpng"])
    base = {"Ids": '{"i", "j"}', "MimeSets": "{0, 1, 3}", "ExtSets": "{0, 1, 3}", "Magics": "{0, 1, 2}", "MaxFormats": 2, "Contents": "{0, 1, 2, 3}"}
    deep = dict(base, Ids='{"i", "j", "k"}', MimeSets="{0, 1}", ExtSets="{0, 1}", Magics=ctx.pick("{1, 3}", "{0, 1, 3}"), MaxFormats=3, Contents="{1, 3}")
    inv = ["StagedAgrees", "FindsSomebody", "SaveIsAssociated", "IdentsDiffer"]
    ctx.model("ImageFormatsMC", cfg("Spec", base, inv), label="two formats: detection is as documented")
    ctx.model("ImageFormatsMC", cfg("Spec", deep, inv), label="three formats")
    small = dict(base, MimeSets="{0, 1}", ExtSets="{0, 3}", Magics="{0, 2}", Contents="{1, 2}")
    scripts = ctx.gen_scripts("ImageFormatsMC", cfg("Spec", small, ["EmitInv"]), label="small registries and questions", limit=ctx.pick(4000, 60000))
    traces = ctx.play(exe, scripts, ctx.pick(120, 2000), 60, ctx.pick(7, 28), "i06")
    ctx.validate("ImageFormatsTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["asked", "used", "err", "got", "ml", "xl", "all", "v", "ok", "special"],
                 mutate_filter=lambda e, f: e["e"] != "rread")
    ctx.require_events(["register", "lookup", "load", "save", "rread", "rrewind", "tput", "tget"])
