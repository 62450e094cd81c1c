"""P05: order of swatches (SwatchOrder.tla, TraceOrder.tla, TracePalette.tla).
P06: extraction is a function (Session.tla, Observer.tla, TraceSession.tla).
P07: every image yields a well-formed palette (Pipeline.tla, TracePalette.tla)."""
import itertools, random
from . import images
from .palette import brief


# ---------------------------------------------------------------------------------- P05
def p05(ctx):
    rng = ctx.rng
    ctx.model("SwatchOrder", ctx.pick("SwatchOrder_small", "SwatchOrder_large"))
    ctx.model("SwatchOrder", "SwatchOrder_live")
    ctx.model("SwatchOrder", "SwatchOrder_neg", "ByShare")
    ctx.model("Pipeline", "Pipeline_small")
    ctx.build(hooks=False)
    cases = []

    def add(sw, scale, near=None):
        for prec in ("f32", "f64"):
            cases.append(dict(op="swatches", prec=prec, S=scale, base=0 if near is None else 23 if prec == "f32" else 52, sw=sw))
    # all pairs of swatches over two values of every component
    comps = list(itertools.product((1, 2), (0, 255), (0, 200), (0, 90), (0, 7), (0, 9)))
    for i in range(0, len(comps), 8):
        add([list(c) for c in comps[i:i + 8]] + [list(c) for c in comps[::-8][:8]], 4)
    for no in range(ctx.pick(300, 4000)):
        n = rng.choice((0, 1, 2, 3, 5, 12, 25)) if no % 25 else rng.choice((40, 70, 130))
        scale = rng.choice((1, 4, 128, 1 << 20))
        m = rng.choice((2, 5, scale))
        # percentages may be close to one another, equal, 0, or (for a custom swatch) above 1
        base = rng.randint(0, scale)
        pct = lambda: rng.choice((rng.randint(0, m), base, base + 1, max(0, base - 1)))
        add([[pct()] + [rng.randint(0, 255) for _ in range(3)] + [rng.choice((0, 5, rng.randint(0, 4000))) for _ in range(2)]
             for _ in range(n)], scale, near=True if no % 4 == 0 else None)
    records = ctx.execute(cases, name="order")
    ctx.validate("TraceOrder", "TraceOrder", records, name="order")
    # palettes
    pics = []
    for no in range(ctx.pick(60, 500)):
        img = rng.choice((images.strip, images.strip, images.strip, images.two_strips))(rng)
        pics.append(images.case(img, rng, "P05", ("f32", "f64")[no % 2]))
    for no in range(ctx.pick(10, 80)):
        pics.append(images.case(images.picture(rng), rng, "P05", ("f32", "f64")[no % 2]))
    for no in range(ctx.pick(6, 40)):
        pics.append(images.block_case(images.large(rng), rng, "P05", ("f32", "f64")[no % 2]))
    for no in range(ctx.pick(2, 12)):  # hundreds of swatches
        pics.append(images.block_case(images.mosaic(rng), rng, "P05", ("f32", "f64")[no % 2]))
    for no in range(ctx.pick(16, 120)):  # shares that differ by a single pixel
        pics.append(images.block_case(images.equals(rng), rng, "P05", ("f32", "f64")[no % 2]))
    palettes = ctx.execute(pics, name="palettes", stall=400)
    ctx.samples = [records[40]] + brief(palettes)
    ctx.notes["palettes_with_several_swatches"] = sum(len(r["out"]) > 1 for r in palettes if r["outcome"] == "ok")
    ctx.validate("TracePalette", "TracePalette", palettes, name="palettes")
    return False


# ---------------------------------------------------------------------------------- P06
def plain(img, alpha):
    return dict(w=img.w, h=img.h, colors=img.colors, px=img.px, alpha=alpha)


def family(rng, big):
    """Images that a wrong notion of sameness would confuse."""
    while True:
        base = images.picture(rng) if big else images.strip(rng)
        try:
            if images.witness(base.w, base.h, base.colors, base.px)[0]["k"] >= 2:
                break
        except images.Undecided:
            pass
    out = [plain(base, 255), plain(base, rng.randint(256, 9999))]   # another alpha
    turned = plain(base, 255)
    turned["w"], turned["h"] = base.h, base.w                       # other dimensions
    out.append(turned)
    other = plain(base, 255)                                        # another content, same dimensions
    other["px"] = base.px[::-1]
    out.append(other)
    one = plain(base, 0)                                            # a few pixels differ
    one["px"] = list(base.px)
    for _ in range(40):
        one["px"][rng.randrange(len(base.px))] = rng.randint(1, len(base.colors))
    out.append(one)
    out.append(plain(images.strip(rng), 255))                       # something else
    return out


def large_family(rng):
    """Images of more than 2^16 pixels which differ in little."""
    base = images.scattered(rng, *rng.choice(((270, 251), (311, 222), (67001, 1))), 4, (20, 60) if rng.random() < 0.5 else (25, 90))
    base = dict(base, alpha=255)
    out = [base, dict(base, alpha=rng.randint(256, 9999)), dict(base, noise=base["noise"][::-1])]
    b = [list(x) for x in base["blocks"]]
    b[0][4] = rng.randint(1, len(base["colors"]) - len(base["noise"])) if rng.random() < 0.5 else base["noise"][0]
    out.append(dict(base, blocks=b))
    out.append(dict(base, blocks=base["blocks"][:-1] or base["blocks"]))
    out.append(plain(images.strip(rng), 255))
    return out


def p06(ctx):
    rng = ctx.rng
    ctx.model("Session", ctx.pick("Session_small", "Session_large"))
    ctx.model("Session", "Session_live")
    ctx.model("Session", "Session_neg_shared", "Function")
    ctx.model("Session", "Session_neg_kept", "Alone")
    ctx.model("Session", "Session_neg_random", "Function")
    ctx.build(hooks=False)
    records = []
    histories = [h["calls"] for h in ctx.generate("GenSession", ctx.pick("GenSession_2", "GenSession_3"))]
    rng.shuffle(histories)
    groups = ctx.pick(14, 80)
    for g in range(groups):
        large = g % 14 == 5
        imgs = large_family(rng) if large else family(rng, big=g % 7 == 6)
        n = len(imgs)
        every = [[i, p] for i in range(1, n + 1) for p in (32, 64)]
        procs = [[rng.sample(every, len(every))] for _ in range(2)]
        # sequential histories enumerated by TLC (over the first four images)
        share = histories[g::groups]
        procs += [[sum(share, [])]]
        # overlapping calls: of the same image, and of different ones
        same = rng.choice(every)
        procs += [[[same] * 3 for _ in range(4)]]
        procs += [[[rng.choice(every) for _ in range(4)] for _ in range(4)] for _ in range(ctx.pick(2, 4))]
        if g in (0, 1):  # many calls in one process
            procs += [[[rng.choice(every) for _ in range(ctx.pick(700, 5000))]]]
        if large:
            procs = [[rng.sample(every, 6)], [[same] * 2 for _ in range(3)], [[same]]]
        # every other process fills one buffer per thread again for every call
        cases = [dict(op="session", images=imgs, threads=t, reuse=k % 2 == 1) for k, t in enumerate(procs)]
        results = ctx.execute(cases, name=f"session{g}", procs=len(cases), stall=400)
        numbers, events, bad = {}, [], None
        for proc, r in enumerate(results):
            if r["outcome"] != "ok":
                bad = r if bad is None or bad["outcome"] == "skipped" else bad
                continue
            for e in r["out"]:
                events.append(dict(e, proc=proc, r=numbers.setdefault(e["r"], len(numbers) + 1) if e["e"] == "return" else 0))
        whole = dict(id=f"P06-{g}", op="session", images=imgs, threads=procs)
        if bad:
            records.append({"in": whole, "outcome": bad["outcome"], "msg": bad.get("msg", "")})
        else:
            records.append({"in": whole, "outcome": "ok", "out": events})
    ctx.notes["calls"] = sum(len(r["out"]) // 2 for r in records if r["outcome"] == "ok")
    ctx.notes["processes"] = sum(len(r["in"]["threads"]) for r in records)
    ctx.samples = [r["out"][:6] for r in records[:2] if r["outcome"] == "ok"]
    ctx.validate("TraceSession", "TraceSession", records)
    return False


# ---------------------------------------------------------------------------------- P07
def gamut_edge(rng):
    """Dense gradients between saturated colours: the mean may leave the sRGB gamut."""
    n = images.pick_size(rng, 600, 1239)
    prim = [[255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 255, 0], [0, 255, 255], [255, 0, 255], [255, 255, 255], [0, 0, 0],
            images.rand_color(rng)]
    stops = rng.sample(prim, rng.choice((2, 2, 3)))
    line = []
    for i in range(n):
        t = i * (len(stops) - 1) / n
        a, b = stops[int(t)], stops[int(t) + 1]
        line.append([round(u + (v - u) * (t - int(t))) for u, v in zip(a, b)])
    if rng.random() < 0.5:  # shades close to one another, in random order
        c = [rng.choice((0, 255, v)) for v in images.rand_color(rng)]
        line = [images.near_color(rng, c, rng.choice((2, 6, 12))) for _ in range(n)]
    vertical = rng.random() < 0.3
    img = images.Canvas(1, n) if vertical else images.Canvas(n, 1)
    return img.fill(lambda x, y: line[x + y])


def noise(rng):
    w, h = rng.randint(1, 60), rng.randint(1, 60)
    cols = [images.rand_color(rng) for _ in range(rng.choice((1, 2, 50)))]
    return images.Canvas(w, h).fill(lambda x, y: rng.choice(cols))


def extreme(rng):
    n = rng.choice((2000, 3001, 5003))
    cols = images.palette(rng, 5)
    cut = sorted(rng.randrange(n) for _ in range(4))
    f = lambda x, y: cols[sum(x + y >= c for c in cut)]
    return rng.choice((images.Canvas(n, 1), images.Canvas(1, n))).fill(f)


def p07(ctx):
    rng = ctx.rng
    ctx.model("Pipeline", "Pipeline_large")
    ctx.model("Pipeline", "Pipeline_live")
    ctx.model("ColorPath", "ColorPath_small")
    ctx.model("ColorPath", "ColorPath_neg_limit", "Ranges")
    ctx.build(hooks=False)
    cases = []

    def add(img, precs=None):
        for prec in precs or (rng.choice(("f32", "f64")),):
            cases.append(images.case(img, rng, "P07", prec))
    # every small shape
    top = ctx.pick(7, 14)
    for w in range(top):
        for h in range(top):
            img = images.Canvas(w, h)
            if w and h:
                cols = [images.rand_color(rng) for _ in range(rng.choice((1, 2, 9)))]
                img.fill(lambda x, y: rng.choice(cols))
            add(img, ("f32", "f64"))
    for make, count in ((gamut_edge, ctx.pick(160, 1500)), (noise, ctx.pick(60, 500)), (images.strip, ctx.pick(60, 500)),
                        (images.picture, ctx.pick(14, 100)), (extreme, ctx.pick(6, 40)), (images.two_strips, ctx.pick(10, 100))):
        for _ in range(count):
            add(make(rng))
    for kind, count in (("large", ctx.pick(8, 60)), ("wide", ctx.pick(4, 24)), ("edgy", ctx.pick(4, 30)), ("nested", ctx.pick(3, 20)), ("huge", ctx.pick(1, 6))):
        for _ in range(count):
            cases.append(images.block_case(getattr(images, kind)(rng), rng, "P07", rng.choice(("f32", "f64"))))
    # one cluster of very many pixels
    for _ in range(ctx.pick(1, 4)):
        n = rng.randint(415, ctx.pick(425, 480))
        cases.append(images.block_case(dict(w=n, h=n, colors=[images.rand_color(rng)], blocks=[[0, 0, n, n, 1]], noise=[], slope=0),
                                       rng, "P07", rng.choice(("f32", "f64"))))
    # pure colours, where sums of equal values are rounded the most
    for c in itertools.product((0, 255), repeat=3):
        for prec in ("f32", "f64"):
            n = images.pick_size(rng, 500, 1200)
            add(images.Canvas(n, 1).fill(lambda x, y: c), (prec,))
    cases.sort(key=lambda c: -c["w"] * c["h"])
    records = ctx.execute(cases, stall=400)
    ctx.samples = brief(records[200:])
    ctx.notes["swatches"] = sum(len(r["out"]) for r in records if r["outcome"] == "ok")
    ctx.validate("TracePalette", "TracePalette", records)
    return False


CHECKS = {"P05": p05, "P06": p06, "P07": p07}
