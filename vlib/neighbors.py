"""P11, P12, P19: neighbour searches (KdTree.tla, Neighbors.tla, TraceNeighbors.tla)."""
from .points import HUGE, d2, dataset, point, ring, size, variant


def queries(rng, pts, dim, m, kinds, count):
    qs = []
    for _ in range(count):
        q = list(rng.choice(pts)) if pts and rng.random() < 0.4 else point(rng, dim, m + m // 4 + 1)
        if rng.random() < 0.2 and pts:
            q = [c + rng.choice((-1, 0, 1)) for c in rng.choice(pts)]
        t = rng.choice(kinds)
        if t == "knn":
            n = len(pts)
            qs.append(dict(t="knn", q=q, k=rng.choice((0, 1, 2, 3, n - 1 if n else 0, n, n + 1, n + 5, HUGE,
                                                       rng.randint(0, n + 2), rng.randint(0, n + 2)))))
        elif t == "near":
            qs.append(dict(t="near", q=q))
        else:
            # thresholds at, below and above distances that occur, and extreme ones
            ds = [d2(q, p) for p in pts] or [5]
            r2 = rng.choice((rng.choice(ds), rng.choice(ds), rng.choice(ds) - 1, rng.choice(ds) + 1,
                             0, -1, -9, HUGE, max(ds), min(ds), rng.randint(0, max(ds) + 1)))
            qs.append(dict(t="rad", q=q, r2=r2))
    return qs


def small_scope(ctx, kinds, cases):
    """Every dataset of the small grid, every query around it: the scope of KdTree_small/large."""
    sets = ctx.generate("GenNeighbors", ctx.pick("GenNeighbors_3", "GenNeighbors_4"))
    grid = [[x, y] for x in range(0, 4) for y in range(0, 4)]
    for no, s in enumerate(sets):
        pts = [list(p) for p in s["pts"]]
        ctx.rng.shuffle(pts)
        for metric in "ES":
            qs = []
            for q in grid:
                if "rad" in kinds:
                    qs += [dict(t="rad", q=q, r2=r) for r in (-1, 0, 1, 2, 4, 5, 8, 9)]
                if "knn" in kinds:
                    qs += [dict(t="knn", q=q, k=k) for k in range(0, len(pts) + 2)] + [dict(t="near", q=q)]
            # lattice units of 1, 1/4 and 1/64 alternate; both back ends answer
            cases.append(dict(op="nn", dim=2, prec=("f32", "f64")[no % 2], S=(1, 4, 64)[no % 3], metric=metric,
                              backend=("kdtree", "linear")[no % 4 == 3], pts=pts, qs=qs))


def searches(ctx, kinds, models):
    for m in models:
        ctx.model("KdTree", *m) if len(m) == 2 else ctx.model("KdTree", m[0])
    ctx.build()
    cases = []
    small_scope(ctx, kinds, cases)
    for _ in range(ctx.pick(700, 6000)):
        v = variant(ctx.rng, 16, 30)
        n = size(ctx.rng, ctx.pick(60, 120))
        m = ctx.rng.choice((1, 3, 10, 50, 250)) if v["prec"] == "f32" else ctx.rng.choice((1, 3, 10, 100, 5000))
        pts = dataset(ctx.rng, v["dim"], n, m)
        cases.append(dict(op="nn", backend=ctx.rng.choice(("kdtree", "kdtree", "linear")), pts=pts,
                          qs=queries(ctx.rng, pts, v["dim"], m, kinds, 12), **v))
    # a few large trees
    for _ in range(ctx.pick(24, 120)):
        v = variant(ctx.rng, 16, 30)
        pts = dataset(ctx.rng, v["dim"], ctx.rng.randint(300, 800), 200)
        cases.append(dict(op="nn", backend=ctx.rng.choice(("kdtree", "kdtree", "linear")), pts=pts,
                          qs=queries(ctx.rng, pts, v["dim"], 200, kinds, 6), **v))
    for _ in range(ctx.pick(4, 24)):
        v = variant(ctx.rng, 16, 30)
        pts = dataset(ctx.rng, v["dim"], ctx.rng.randint(2000, 6000), 250)
        cases.append(dict(op="nn", backend=ctx.rng.choice(("kdtree", "kdtree", "linear")), pts=pts,
                          qs=queries(ctx.rng, pts, v["dim"], 250, kinds, 4), **v))
    # more points than 16 bits count, and answers of thousands of points
    for no in range(ctx.pick(2, 8)):
        v = variant(ctx.rng, 16, 30)
        n = 65536 + ctx.rng.choice((1, 7, 900, 4000))
        pts = dataset(ctx.rng, v["dim"], n, 250)
        q = list(ctx.rng.choice(pts))
        ds = sorted(d2(q, p) for p in pts)
        big = ctx.rng.choice((1030, 2050, 4100, 5000))
        qs = [dict(t="near", q=point(ctx.rng, v["dim"], 300)), dict(t="knn", q=q, k=big)] if "knn" in kinds else []
        if "rad" in kinds:
            qs += [dict(t="rad", q=q, r2=ds[big]), dict(t="rad", q=pts[-1], r2=0)]
        cases.append(dict(op="nn", backend=("kdtree", "kdtree", "linear")[no % 3], pts=pts, qs=qs, **v))
    # distances that only double precision can tell apart
    for _ in range(ctx.pick(60, 500)):
        rng, v = ctx.rng, dict(variant(ctx.rng, 0, 20), prec="f64")
        pts, center = ring(rng, v["dim"], rng.randint(5, 60))
        if rng.random() < 0.3:
            pts.insert(rng.randrange(len(pts)), list(center))
        ds = sorted(d2(center, p) for p in pts)
        qs = []
        for _ in range(8):
            t = rng.choice(kinds)
            qs.append(dict(t=t, q=center, **(dict(k=rng.randint(1, len(pts))) if t == "knn" else dict(r2=rng.choice(ds) + rng.choice((-1, 0, 0, 1)))
                                             if t == "rad" else {})))
        cases.append(dict(op="nn", backend=rng.choice(("kdtree", "linear")), pts=pts, qs=qs, **v))
    records = ctx.execute(cases)
    ctx.samples = [dict(case={k: records[i]["in"][k] for k in ("dim", "prec", "S", "metric", "backend", "pts")},
                        query=records[i]["in"]["qs"][:2], answer=records[i].get("out", [])[:2])
                   for i in (len(cases) // 3, len(cases) // 3 + 1)]
    ctx.notes["searches"] = sum(len(c["qs"]) for c in cases)
    ctx.validate("TraceNeighbors", "TraceNeighbors", records)
    ctx.assumptions += ["coordinates are lattice points scaled by powers of two, where squared distances are exact"]
    return False


def p11(ctx):
    return searches(ctx, ("rad",), [("KdTree_small",) if not ctx.thorough else ("KdTree_large",),
                                    ("KdTree_live",), ("KdTree_neg_raw", "RadiusCorrect")])


def p12(ctx):
    return searches(ctx, ("knn", "knn", "near"), [("KdTree_small",) if not ctx.thorough else ("KdTree_large",),
                                                  ("KdTree_live",), ("KdTree_neg_nearest", "KnnCorrect")])


def p19(ctx):
    ctx.model("KdTree", ctx.pick("KdTree_small", "KdTree_large"))
    ctx.model("KdTree", "KdTree_neg_nearest", "KnnCorrect")
    ctx.build()
    cases = []
    sets = ctx.generate("GenNeighbors", ctx.pick("GenNeighbors_3", "GenNeighbors_4"))
    for no, s in enumerate(sets):
        for m in range(0, len(s["pts"]) + 2):
            cases.append(dict(op="core", dim=2, prec=("f32", "f64")[no % 2], S=(1, 4, 64)[no % 3],
                              metric="ES"[no // 2 % 2], pts=s["pts"], m=m))
    for _ in range(ctx.pick(700, 6000)):
        v = variant(ctx.rng, 16, 30)
        m = ctx.rng.choice((1, 3, 10, 50, 250)) if v["prec"] == "f32" else ctx.rng.choice((1, 3, 10, 100, 5000))
        pts = dataset(ctx.rng, v["dim"], size(ctx.rng, 40), m)
        n = len(pts)
        cases.append(dict(op="core", pts=pts, m=ctx.rng.choice((0, 1, 2, 3, max(1, n - 1), max(1, n), n + 1, n + 7, HUGE,
                                                               ctx.rng.randint(1, n + 1))), **v))
    for _ in range(ctx.pick(12, 80)):
        v = variant(ctx.rng, 16, 30)
        n = ctx.rng.randint(100, 320)
        n = 1100 if _ == 0 else n
        cases.append(dict(op="core", pts=dataset(ctx.rng, v["dim"], n, 200),
                          m=ctx.rng.choice((1, 5, 31, 32, 33, n // 2, n - 1, n)), **v))
    for _ in range(ctx.pick(40, 400)):
        rng, v = ctx.rng, dict(variant(ctx.rng, 0, 20), prec="f64")
        pts, center = ring(rng, v["dim"], rng.randint(5, 40))
        pts.insert(rng.randrange(len(pts)), center)
        cases.append(dict(op="core", pts=pts, m=rng.randint(1, len(pts)), **v))
    records = ctx.execute(cases)
    ctx.samples = records[len(records) // 2: len(records) // 2 + 2]
    ctx.validate("TraceNeighbors", "TraceNeighbors", records)
    ctx.assumptions += ["coordinates are lattice points scaled by powers of two, where squared distances are exact",
                        "core distances of a single point are not specified"]
    return False


CHECKS = {"P11": p11, "P12": p12, "P19": p19}
