import _img


def run(ctx):
    _img.run(ctx, "i03", ["p", "clean"], ["mode", "color", "fill", "fillall", "put", "image", "wholeimage", "mask"],
             lambda e: e["e"] in ("read", "getcolor", "palette"))
