"""P10: DBSCAN (Dbscan.tla, Clustering.tla, TraceDbscan.tla)."""
from .points import HUGE, d2, dataset, magnitude, ring, size, variant


def walk(rng, dim, n, r2, m):
    """Chains with steps around the radius, with side points: clusters that are long, that almost
    touch, and border points between clusters."""
    r = max(1, int(r2 ** 0.5))
    out, p = [], [rng.randint(-m // 2, m // 2) for _ in range(dim)]
    while len(out) < n:
        out.append(list(p))
        for _ in range(rng.choice((0, 0, 1, 2, 3))):
            out.append([max(-m, min(m, c + rng.randint(-r, r))) for c in p])
        step = rng.choice((r, r, r - 1, r + 1, 2 * r, 2 * r + 1))
        axis = rng.randrange(dim)
        p[axis] = p[axis] + rng.choice((step, step, -step))
        p = [max(-m, min(m, c)) for c in p]
    out = out[:n]
    rng.shuffle(out)
    return out


def plane(rng, v, w, h, style):
    """Thousands of distinct points on a plane of the lattice: areas with gaps, a random pattern, a snake."""
    if style == "areas":
        gx, gy = rng.randint(5, w // 2), rng.randint(5, h // 2)
        has = lambda x, y: x % gx >= 2 and y % gy >= 2
    elif style == "holes":
        part = rng.choice((0.55, 0.7, 0.9))
        has = lambda x, y: rng.random() < part
    else:
        has = lambda x, y: y % 4 == 0 or (y % 4 == 1 and x == (w - 1 if y % 8 < 4 else 0)) or \
            (y % 4 > 1 and x == (w - 1 if y % 8 < 4 else 0))
    cells = [(x, y) for y in range(h) for x in range(w) if has(x, y)]
    if rng.random() < 0.5:
        rng.shuffle(cells)
    axes = rng.sample(range(1, v["dim"] + 1), 2)
    rest = [rng.randint(0, 20) for _ in range(v["dim"])]
    at = [[0] * w for _ in range(h)]
    pts = []
    for i, (x, y) in enumerate(cells):
        p = list(rest)
        p[axes[0] - 1], p[axes[1] - 1] = x, y
        pts.append(p)
        at[y][x] = i + 1
    return dict(pts=pts, at=at, axes=axes)


def p10(ctx):
    rng = ctx.rng
    ctx.model("Dbscan", ctx.pick("Dbscan_small", "Dbscan_large"))
    ctx.model("Dbscan", "Dbscan_live")
    ctx.model("Dbscan", "Dbscan_neg_absorb", "Valid")
    ctx.model("Dbscan", "Dbscan_neg_border", "Grounded")
    ctx.build()
    cases = []
    for no, s in enumerate(ctx.generate("GenNeighbors", ctx.pick("GenNeighbors_3", "GenNeighbors_4"))):
        pts = [list(p) for p in s["pts"]]
        rng.shuffle(pts)
        for minpts in range(0, len(pts) + 2):
            for r2 in (-1, 0, 1, 2, 4):
                cases.append(dict(op="dbscan", dim=2, prec=("f32", "f64")[no % 2], S=(1, 4, 64)[no % 3],
                                  metric="ES"[no // 2 % 2], pts=pts, minpts=minpts, r2=r2))
    for _ in range(ctx.pick(1500, 12000)):
        v = variant(rng, 12, 28)
        m = rng.choice((3, 6, 12, 40, 200))
        r2 = rng.choice((-1, 0, 1, 2, 3, 4, 5, 8, 9, 16, 25, 36, HUGE, rng.randint(1, m * m), rng.randint(1, m * m)))
        n = size(rng, ctx.pick(50, 90))
        pts = walk(rng, v["dim"], n, max(1, min(r2, m * m)), m) if rng.random() < 0.5 else dataset(rng, v["dim"], n, m)
        cases.append(dict(op="dbscan", pts=pts, r2=r2, minpts=rng.choice((0, 1, 2, 3, 4, 5, 7, HUGE, rng.randint(1, n + 2), rng.randint(1, n + 2))), **v))
    for _ in range(ctx.pick(10, 60)):
        v = variant(rng, 12, 28)
        r2 = rng.choice((4, 9, 25))
        cases.append(dict(op="dbscan", pts=walk(rng, v["dim"], rng.randint(120, 260), r2, 60), r2=r2,
                          minpts=rng.choice((2, 3, 4, 6)), **v))
    for no in range(ctx.pick(3, 16)):  # clusters of more than a thousand points
        v = variant(rng, 12, 28)
        n = rng.randint(1050, 1500)
        if no % 3:
            r2, pts = rng.choice((1, 2, 4, 5)), dataset(rng, v["dim"], n, {2: 22, 3: 6, 5: 3}[v["dim"]])
        else:
            r2 = rng.choice((4, 9, 25))
            pts = walk(rng, v["dim"], n, r2, 60)
        cases.append(dict(op="dbscan", pts=pts, r2=r2, minpts=rng.choice((1, 2, 3, 5)), **v))
    sizes = ((60, 60, "areas"), (75, 70, "holes"), (90, 89, "snake"), (64, 80, "areas"),
             (300, 230, "areas"))
    for no in range(ctx.pick(5, 20)):  # thousands of points, one case more than 16 bits count
        w, h, style = sizes[no % 5]
        v = dict(variant(rng, 0, 0), S=rng.choice((1, 4, 64)), prec="f64" if no % 5 == 4 else rng.choice(("f32", "f64")))
        v["exp"] = magnitude(rng, v["prec"])
        r2 = rng.choice((1, 2)) if style == "holes" else 1
        cases.append(dict(op="dbscan", r2=r2, minpts=rng.choice((1, 2, 3)) if style != "areas" else rng.choice((3, 4, 5)), **plane(rng, v, w, h, style), **v))
    for _ in range(ctx.pick(40, 400)):  # distances that only double precision can tell apart
        v = dict(variant(rng, 0, 20), prec="f64")
        pts, center = ring(rng, v["dim"], rng.randint(5, 40))
        ds = sorted(d2(center, p) for p in pts)
        pts.insert(rng.randrange(len(pts)), center)
        at = rng.randrange(len(ds))
        cases.append(dict(op="dbscan", pts=pts, r2=ds[at] + rng.choice((-1, 0, 0, 1)), minpts=max(1, at + rng.choice((0, 1, 2, 3))), **v))
    cases.sort(key=lambda c: -len(c["pts"]))
    records = ctx.execute(cases)
    ctx.samples = records[len(records) // 2: len(records) // 2 + 2]
    ctx.notes["clusters_seen"] = sum(len(r["out"]["members"]) for r in records if r["outcome"] == "ok")
    ctx.validate("TraceDbscan", "TraceDbscan", records)
    ctx.assumptions += ["coordinates are lattice points scaled by powers of two; radii separate lattice distances or are exact"]
    return False


CHECKS = {"P10": p10}
