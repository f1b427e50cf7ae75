from vp import cfg, trace_cfg

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
UNITS = {("decode", "utf8"): "{65, 128, 130, 160, 195, 226, 237, 240, 255}", ("decode", "shift"): "{65, 10, 27, 48, 49, 200}",
         ("decode", "ascii"): "{65, 10, 128, 200}", ("encode", "utf8"): "{13, 10, 233, 8364, 128512, 55296}",
         ("encode", "shift"): "{65, 10, 1089, 1090, 8364}", ("encode", "ascii"): "{65, 13, 10, 233}"}
FRAGS = {"utf8": "Utf8Frags", "shift": "ShiftFrags", "ascii": "AsciiFrags"}


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("c07", libs, SAN)
    inv = ["Prefix", "ErrorRight", "EndRight", "Single", "Progress", "LenientNeverFails", "Back", "NlBack"]
    for (d, form), units in UNITS.items():
        for mode in ("strict", "lenient"):
            ctx.model("TextCodecMC", cfg("Spec", {"Dir": f'"{d}"', "Form": f'"{form}"', "Mode": f'"{mode}"', "Units": units,
                                                  "MaxLen": ctx.pick(3, 4 if form == "utf8" and d == "decode" else 5), "Rooms": "{0, 1, 2, 3, 5}", "MaxFrags": 0},
                                                 inv, subst={"Frags": "AsciiFrags"}),
                      label=f"{d} {form} {mode}: pieces of input and output never matter")
    scripts = []
    for d, form, frags, q, t in (("decode", "utf8", "Utf8Frags", 3, 4), ("decode", "shift", "ShiftFrags", 3, 4), ("decode", "ascii", "AsciiFrags", 3, 3),
                                 ("encode", "any", "CharFrags", 3, 4)):
        scripts += ctx.gen_scripts("TextCodecMC", cfg("GenSpec", {"Dir": f'"{d}"', "Form": f'"{form}"', "Mode": '"strict"', "Units": "{0}", "MaxLen": 0,
                                                                  "Rooms": "{0}", "MaxFrags": ctx.pick(q, t)}, ["EmitInv"], subst={"Frags": frags}),
                                   label=f"inputs to {d}, {form}", limit=ctx.pick(900, 12000))
    traces = ctx.play(exe, scripts, ctx.pick(700, 9000), 1, ctx.pick(7, 28), "c07")
    ctx.validate("TextCodecTrace", trace_cfg(), traces, mutate=ctx.pick(8, 20), mutate_field=["n", "out"],
                 mutate_filter=lambda e: e["e"] in ("dec", "enc", "decall", "encall", "nldec", "nlenc", "textdec", "textenc"))
    ctx.require_events(["dec", "enc", "decall", "encall", "unshift", "simul", "nldec", "nlenc", "nlsimul", "textdec", "textenc"])
