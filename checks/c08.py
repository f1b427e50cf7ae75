from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
U8 = "{65, 127, 128, 143, 144, 159, 160, 191, 194, 224, 237, 240, 244, 248}"
U8S = "{65, 128, 144, 160, 191, 193, 194, 224, 237, 240, 244}"
U16 = "{65, 2048, 55295, 55296, 56319, 56320, 57343, 57344, 65533, 65534}"
UCS = "{0, 127, 128, 2047, 2048, 55295, 55296, 57343, 57344, 65533, 65534, 65535, 65536, 1114111, 1114112, 2147483647}"


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("c08", libs, SAN)
    base = {"Rooms": "{0, 1, 2}", "Block": 1}
    inv = ["Prefix", "ErrorRight", "EndRight"]
    for op, units, q, t in (("d8", U8S, 3, 4), ("8to16", U8S, 3, 4), ("d16", U16, 3, 4), ("16to8", U16, 3, 3), ("e8", UCS, 2, 3)):
        ctx.model("UnicodeMC", cfg("Spec", dict(base, Op=f'"{op}"', Units=units, MaxLen=ctx.pick(q, t)), inv),
                  label=f"{op}: pieces of input and output never matter")
    if ctx.tier == "thorough":
        ctx.model("UnicodeMC", cfg("BSpec", dict(base, Op='"d8"', Units="{0}", MaxLen=0, Block=256), ["RoundTrip"]),
                  label="every code point is recovered from its encodings, and nothing else is decoded")
    scripts = []
    for op, units, q, t in (("d8", U8, 3, 4), ("d16", U16, 3, 4), ("e8", UCS, 2, 3)):
        scripts += ctx.gen_scripts("UnicodeMC", cfg("GenSpec", dict(base, Op=f'"{op}"', Units=units, MaxLen=ctx.pick(q, t)), ["EmitInv"]),
                                   label=f"inputs for {op}", limit=ctx.pick(3000, 40000))
    traces = ctx.play(exe, scripts, ctx.pick(900, 12000), 1, ctx.pick(7, 28), "c08")
    ctx.validate("UnicodeTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["out", "len", "i2", "o2"],
                 mutate_filter=lambda e: e["e"] in ("step", "part", "resync", "whole"))
    ctx.require_events(["step", "whole", "part", "resync", "tonative", "fromnative"])
