import _img


def run(ctx):
    _img.run(ctx, "i02", ["p", "clean"], ["falloff", "color", "getcolor", "palette", "read"],
             lambda e: e["e"] in ("read", "getcolor", "palette"))
