from vp import cfg, trace_cfg

SAN = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


def run(ctx):
    libs = ["Core"]
    ctx.build_libs(libs)
    exe = ctx.compile("c10", libs, SAN, link=["-pthread", "-Wl,--wrap=read,--wrap=write,--wrap=flock"])
    invs = ["ReadRight", "WriteRight", "PositionRight", "Sane", "Exclusive"]
    base = {"Paths": '{"a"}', "Handles": "{1, 2}", "MaxLen": 3, "MaxPos": 3, "Ask": "{1, 2}", "Printing": "FALSE"}
    ctx.model("FileHandlesMC", cfg("MCSpec", base, invs, ["ReadOnlyKeeps", "OwnPosition"], constraints=["Small"], view="Hide"),
              label="two handles on one file")
    if not ctx.quick:
        ctx.model("FileHandlesMC", cfg("MCSpec", dict(base, Paths='{"a", "b"}', MaxLen=2, MaxPos=2), invs, ["ReadOnlyKeeps", "OwnPosition"], constraints=["Small"], view="Hide"),
                  label="two handles on two files", allow_timeout=True, timeout=2 * 3600, heap="12g")
        ctx.model("FileHandlesMC", cfg("MCSpec", dict(base, Handles="{1, 2, 3}", MaxLen=2, MaxPos=2, Ask="{2}"), invs, ["ReadOnlyKeeps", "OwnPosition"], constraints=["Small"], view="Hide"),
                  label="three handles on one file", allow_timeout=True, timeout=2 * 3600, heap="12g")
    scripts = []
    for handles, paths in (("{1, 2}", '{"a"}'), ("{1, 2, 3}", '{"a", "b"}')):
        scripts += ctx.gen_scripts("FileHandlesMC", cfg("MCSpec", dict(base, Paths=paths, Handles=handles, MaxLen=6, MaxPos=6, Printing="TRUE"), ["Emit"], constraints=["Short"]),
                                   args=["-simulate", f"num={ctx.pick(400, 6000)}", "-depth", "60", "-seed", str(ctx.seed)],
                                   label=f"histories of handles {handles}", limit=ctx.pick(1200, 12000))
    traces = ctx.play(exe, scripts, ctx.pick(700, 8000), ctx.pick(60, 100), ctx.pick(7, 14), "c10")
    ctx.validate("FileHandlesTrace", trace_cfg(constants={"Paths": '{"a", "b"}', "Handles": "{1, 2, 3}"}, invariants=["Exclusive"]), traces,
                 mutate=ctx.pick(8, 20), mutate_field=["r", "open", "content", "data"],
                 mutate_filter=lambda e, f: f != "data" or e["e"] == "read")
    exe = ctx.compile("c10b", libs, SAN)
    ctx.model("HandleOwner", cfg("OSpec", {"Slots": ctx.pick(3, 4), "Std": ctx.pick(1, 2)}, ["NoLeak", "StandardStay", "Alone"], constraints=["Few"]),
              label="open files and the objects that hold them")
    traces = ctx.play(exe, [], ctx.pick(60, 1000), 40, ctx.pick(2, 7), "c10b")
    ctx.validate("HandleOwnerTrace", trace_cfg(constants={"Slots": 5, "Std": 2}, invariants=["NoLeak", "Alone"]), traces,
                 mutate=ctx.pick(4, 10), mutate_field=["n", "open", "std"])
    ctx.require_events(["fresh", "give", "enter", "shut", "drop", "reset", "open", "close", "move", "read", "write", "seek", "lock", "unlock", "load", "save", "touch"])
