"""P13, P14, P15: k-means (Lloyd.tla, KMeans.tla, TraceKMeans.tla)."""
from .points import HUGE, dataset, magnitude, ring, size, translation


PRECS = ("f32", "f64")


def limits(rng, prec, dim):
    """Sizes for which exact comparisons of rationals fit the integers of TLC and exceed the rounding
    errors of the arithmetic under test (DESIGN.md)."""
    return (8, 4) if prec == "f32" else (10, 10)


def runs(rng, iters):
    out = []
    for _ in range(5):
        num, den = rng.choice(((1, 31), (3, 31), (15, 31), (40, 31), (100, 31), (400, 31), (2000, 31),
                               (rng.randint(1, 600), 31)))
        out.append(dict(num=num, den=den, max=rng.choice((0, 1, 2, 3, iters, iters, 1000, HUGE))))
    return out


def line(rng, dim, n, m):
    """Points on an axis, in powers of two: moves that are exactly the tolerance."""
    axis, at = rng.randrange(dim), [rng.randint(-m, m) for _ in range(dim)]
    out = []
    for _ in range(n):
        p = list(at)
        p[axis] = rng.randint(-m, m)
        out.append(p)
    return out


def exact_runs(rng, iters):
    """Tolerances q / 8, which are representable: a move by exactly the tolerance is not a smaller one."""
    out = []
    for q in rng.sample((1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32), 7):
        out.append(dict(num=q * q, den=64, max=rng.choice((iters, iters, HUGE))))
    return out


def spread_out(rng, dim, n, m):
    """Groups of very different sizes: some centroids settle long before others."""
    out, at = [], -m
    for _ in range(n):
        at = min(m, at + rng.choice((0, 0, 1, 1, 2, 5)))
        out.append([at] + [rng.randint(0, 1) for _ in range(dim - 1)])
    return out


def cases(ctx, judge, count):
    rng = ctx.rng
    out = []
    for no, s in enumerate(ctx.generate("GenNeighbors", "GenNeighbors_3")):
        pts = [list(p) for p in s["pts"]]
        rng.shuffle(pts)
        for k in range(0, len(pts) + 2):
            out.append(dict(op="kmeans", judge=judge, wide=False, dim=2, prec=("f32", "f64")[no % 2], S=(1, 4, 64)[no % 3],
                            metric="ES"[no // 2 % 2], pts=pts, k=k, pp=(no + k) % 3 > 0, seed=no, iters=3,
                            runs=runs(rng, 3) if judge == "P15" else []))
    for _ in range(count):
        prec = rng.choice(("f32", "f64"))
        dim = rng.choice((2, 2, 3, 5))
        top, m = limits(rng, prec, dim)
        n = rng.choice((size(rng, top), rng.randint(4, top), top))
        pts = spread_out(rng, dim, n, m) if rng.random() < 0.4 else dataset(rng, dim, n, rng.choice((1, m, m)))
        more = dict(exp=magnitude(rng, prec))
        if prec == "f64" and rng.random() < 0.25:
            more["off"] = translation(rng, dim, prec, 0, 20)
        k = rng.choice((0, 1, 2, 2, 3, 3, 4, 5, n - 1, n, n + 1, n + 3, HUGE))
        iters = rng.choice((3, 5, 8))
        exact = rng.random() < 0.3
        if exact:
            n, k = rng.choice((4, 6, 8)), rng.choice((1, 2, 2, 3))
            pts = line(rng, dim, n, m)
        out.append(dict(op="kmeans", judge=judge, wide=False, dim=dim, prec=prec, S=rng.choice((1, 4, 64, 256)),
                        metric=rng.choice("ES"), pts=pts, k=max(0, k), pp=rng.random() < 0.5,
                        seed=rng.randrange(10 ** 6), iters=iters, runs=(exact_runs if exact else runs)(rng, iters) if judge == "P15" else [],
                        **more))
    return out


def seeding_cases(ctx, count):
    """Seeding alone: larger datasets, many generator seeds."""
    rng = ctx.rng
    out = []
    for _ in range(count):
        prec, dim = rng.choice(("f32", "f64")), rng.choice((2, 3, 5))
        n = rng.choice((size(rng, 30), rng.randint(5, 40)))
        pts = dataset(rng, dim, n, rng.choice((1, 2, 10, 100)))
        more = dict(exp=magnitude(rng, prec))
        if rng.random() < 0.25:
            more["off"] = translation(rng, dim, prec, 14, 28)
        out.append(dict(op="kmeans", judge="P14", wide=False, dim=dim, prec=prec, S=rng.choice((1, 4, 64, 256)),
                        metric=rng.choice("ES"), pts=pts, k=rng.choice((0, 1, 2, 3, max(1, n // 2), max(1, n - 1), n, n + 2, HUGE)),
                        pp=rng.random() < 0.5, seed=rng.randrange(10 ** 6), iters=0, runs=[],
                        **more))
    for no in range(count // 250):  # large datasets, where an implementation may be tempted to look at a part
        prec, dim = rng.choice(("f32", "f64")), rng.choice((2, 3, 5))
        n = rng.choice((400, 700, 1100, 2100, rng.randint(300, 3000)))
        pts = dataset(rng, dim, n, 60)
        for _ in range(rng.choice((0, 1, 1, 3))):  # a point on its own that no sample would contain
            pts[rng.randrange(n)] = [rng.choice((-1, 1)) * rng.randint(150, 250) for _ in range(dim)]
        out.append(dict(op="kmeans", judge="P14", wide=False, dim=dim, prec=prec, S=rng.choice((1, 4, 64, 256)),
                        metric=rng.choice("ES"), pts=pts, k=rng.choice((2, 3, 5, 8)), pp=True, seed=rng.randrange(10 ** 6),
                        iters=0, runs=[], exp=magnitude(rng, prec)))
    for no in range(count // 20):  # distances that only double precision can tell apart
        dim = rng.choice((2, 3, 5))
        pts, center = ring(rng, dim, rng.randint(4, 12))
        for _ in range(rng.randint(3, 12)):
            pts.insert(rng.randrange(len(pts)), list(center))
        out.append(dict(op="kmeans", judge="P14", wide=False, dim=dim, prec="f64", S=rng.choice((1, 4, 64, 256)),
                        metric=rng.choice("ES"), pts=pts, k=rng.choice((2, 2, 3, 5)), pp=True, seed=rng.randrange(10 ** 6),
                        iters=0, runs=[], exp=magnitude(rng, "f64")))
    return out


def large_cases(ctx, judge, count):
    """Many points, one iteration: large clusters (integers of the means stay small)."""
    rng = ctx.rng
    out = []
    for no in range(count):
        prec, dim = rng.choice(("f32", "f64")), rng.choice((2, 3, 5))
        if no % 60 == 0:  # more points than 16 bits count
            n = 65536 + rng.randint(1, 3000)
            out.append(dict(op="kmeans", judge=judge, wide=False, dim=dim, prec="f64", S=4, metric=rng.choice("ES"),
                            pts=dataset(rng, dim, n, 20), k=rng.choice((2, 3)), pp=False, seed=rng.randrange(10 ** 6), iters=1, runs=[]))
            continue
        n = rng.choice((100, 256, 257, 300, rng.randint(60, 700), rng.randint(60, 700), rng.randint(1000, 3000)))
        m = rng.choice((3, 20, 100))
        more = dict(exp=magnitude(rng, prec))
        if prec == "f64" and rng.random() < 0.25:
            more["off"] = translation(rng, dim, prec, 0, 20)
        out.append(dict(op="kmeans", judge=judge, wide=False, dim=dim, prec=prec, S=rng.choice((1, 4, 64, 256)), metric=rng.choice("ES"),
                        pts=dataset(rng, dim, n, m), k=rng.choice((1, 2, 3, 8, 20, min(n - 1, 700), n)), pp=rng.random() < 0.5,
                        seed=rng.randrange(10 ** 6), iters=1, runs=[], **more))
    return out


def wide_runs(rng, iters):
    """Tolerances of t/1024 lattice units (their squares: num/den)."""
    out = []
    for _ in range(5):
        t = rng.choice((0, 16, 40, 100, 300, 1000, 3000, rng.randint(10, 4000)))
        out.append(dict(t=t, num=t * t, den=2 ** 20, max=rng.choice((0, 1, 2, 3, 5, iters, iters, 1000))))
    return out


def wide_cases(ctx, judge, count):
    """Many points and many iterations: clusters go on trading points after their sizes are settled."""
    rng = ctx.rng
    out = []
    for _ in range(count):
        prec, dim = rng.choice(("f32", "f64")), rng.choice((2, 2, 3, 5))
        n = rng.choice((20, 40, 60, 100, rng.randint(12, 150)))
        m = 6 if dim == 5 else 10
        pts = dataset(rng, dim, n, m) if rng.random() < 0.5 else [[rng.randint(-m, m) for _ in range(dim)] for _ in range(n)]
        k = rng.choice((2, 3, 3, 4, 5, 8, 10))
        iters = rng.choice((6, 12, 20))
        out.append(dict(op="kmeans", judge=judge, wide=True, dim=dim, prec=prec, S=rng.choice((1, 4, 64, 256)),
                        metric=rng.choice("ES"), pts=pts, k=k, pp=rng.random() < 0.3, seed=rng.randrange(10 ** 6),
                        iters=iters, runs=wide_runs(rng, iters) if judge == "P15" else [], exp=magnitude(rng, prec)))
    return out


def slow_cases(ctx, count, n, iters):
    """Runs that take a hundred iterations and more: the density falls along an axis."""
    rng = ctx.rng
    out = []
    for no in range(count):
        dim = rng.choice((2, 3, 5))
        axis, m, rate = rng.randrange(dim), 600, rng.choice((8, 10, 12))
        pts = []
        for _ in range(n):
            p = [0] * dim
            p[axis] = int(-m + 2 * m * min(1, rng.expovariate(rate)))
            pts.append(p)
        limits = (iters - 1, iters - iters // 4, iters // 2 + 1, 1000, HUGE)
        out.append(dict(op="kmeans", judge="P15", wide=True, fp=32, dim=dim, prec=PRECS[no % 2], S=rng.choice((1, 4, 64)),
                        metric=rng.choice("ES"), pts=pts, k=16, pp=False, seed=rng.randrange(10 ** 6), iters=iters,
                        runs=[dict(t=t, num=t * t, den=1024, max=limits[i]) for i, t in enumerate((0, 0, 1, 10, 20))]))
    return out


def go(ctx, judge, negative, violated, more=()):
    ctx.model("Lloyd", ctx.pick("Lloyd_small", "Lloyd_large"))
    ctx.model("Lloyd", "Lloyd_live")
    ctx.model("Lloyd", negative, violated)
    ctx.build()
    todo = cases(ctx, judge, ctx.pick(1200, 12000) if judge != "P14" else 0) + list(more)
    records = ctx.execute(todo)
    ctx.samples = records[len(records) // 2: len(records) // 2 + 2]
    ctx.validate("TraceKMeans", "TraceKMeans", records)
    ctx.assumptions += ["coordinates are lattice points scaled by powers of two; means are compared as exact rationals",
                        "moves within the rounding error of the tolerance may count as either"]
    return False


CHECKS = {
    "P13": lambda ctx: go(ctx, "P13", "Lloyd_neg_empty", "EmptyStays", large_cases(ctx, "P13", ctx.pick(60, 500)) + wide_cases(ctx, "P13", ctx.pick(60, 800))),
    "P14": lambda ctx: go(ctx, "P14", "Lloyd_neg_reuse", "Spread", seeding_cases(ctx, ctx.pick(2500, 20000))),
    "P15": lambda ctx: go(ctx, "P15", "Lloyd_neg_stop", "StopsSettled",
                      wide_cases(ctx, "P15", ctx.pick(200, 2500)) + slow_cases(ctx, ctx.pick(6, 24), 4000, ctx.pick(150, 350))),
}
