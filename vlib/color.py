"""P08, P09: conversions (Color.tla, ColorPath.tla, TraceColor.tla)."""
import os

PRECS = ("f32", "f64")


def run(ctx, cases):
    ctx.generate("GenColor", "GenColor")
    tables = os.path.join(ctx.work, "GenColor.gen.ndjson")
    for c in cases:
        if c["op"] in ("slab", "labslab"):
            c["tables"] = tables
    records = ctx.execute(cases)
    ctx.samples = [r for r in records if r["in"]["op"] == "color"][100:102]
    ctx.validate("TraceColor", "TraceColor", records, parts=1)
    ctx.notes["colours_enumerated"] = sum(r["out"]["n"] for r in records if r["in"]["op"] == "slab" and r["outcome"] == "ok")
    return False


def rgb_cases(ctx, judge, count):
    rng = ctx.rng
    out = []

    def add(c, precs=PRECS):
        for prec in precs:
            out.append(dict(op="color", judge=judge, prec=prec, c=list(c) + [rng.choice((0, 1, 128, 255))]))
    for v in range(256):  # every channel value on its own (XYZ is additive), and all greys
        for c in ((v, 0, 0), (0, v, 0), (0, 0, v), (v, v, v)):
            add(c)
    for _ in range(count):
        style = rng.randrange(4)
        top = (255, 255, 30, 12)[style]
        c = [rng.randint(0, top) for _ in range(3)]
        if style == 1:
            c = [rng.choice((0, 255, rng.randint(0, 255))) for _ in range(3)]
        add(c, (rng.choice(PRECS),))
    # all of sRGB, in both precisions
    out += [dict(op="slab", judge=judge, r=r, prec=p) for r in range(256) for p in PRECS]
    return out


def models(ctx):
    ctx.model("ColorPath", ctx.pick("ColorPath_small", "ColorPath_large"))
    ctx.model("ColorPath", "ColorPath_neg_limit", "Ranges")
    ctx.model("ColorPath", "ColorPath_neg_curve", "Primaries")
    ctx.build()
    ctx.assumptions += ["fixed point of 1e-7 in linear light; tolerances 1e-5 (XYZ, light) and 0.01 (L*a*b*)"]


def p08(ctx):
    models(ctx)
    return run(ctx, rgb_cases(ctx, "P08", ctx.pick(3000, 60000)))


def p09(ctx):
    rng = ctx.rng
    models(ctx)
    cases = rgb_cases(ctx, "P09", ctx.pick(1500, 30000))
    for _ in range(ctx.pick(5000, 80000)):
        style = rng.randrange(5)
        if style == 0:    # anywhere
            v = [rng.randint(0, 100000), rng.randint(-128000, 127000), rng.randint(-128000, 127000)]
        elif style == 1:  # the corners and faces
            v = [rng.choice((0, 100000, rng.randint(0, 100000))),
                 rng.choice((-128000, 127000, 0, rng.randint(-128000, 127000))),
                 rng.choice((-128000, 127000, 0, rng.randint(-128000, 127000)))]
        elif style == 2:  # weak chroma
            v = [rng.randint(0, 100000), rng.randint(-9000, 9000), rng.randint(-9000, 9000)]
        elif style == 3:  # dark
            v = [rng.randint(0, 12000), rng.randint(-30000, 30000), rng.randint(-30000, 30000)]
        else:             # light
            v = [rng.randint(90000, 100000), rng.randint(-60000, 60000), rng.randint(-60000, 100000)]
        cases.append(dict(op="lab", judge="P09", prec=rng.choice(PRECS), v=v))
    step = ctx.pick(1000, 250)
    cases += [dict(op="labslab", judge="P09", prec=p, l=l, step=step) for l in range(0, 100001, step) for p in PRECS]
    return run(ctx, cases)


CHECKS = {"P08": p08, "P09": p09}
