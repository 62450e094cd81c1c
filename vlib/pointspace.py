"""P21: points and distances (PointSpace.tla, Space.tla, TracePoints.tla)."""
import itertools
from .points import magnitude, translation


def p21(ctx):
    rng = ctx.rng
    ctx.model("PointSpace", "PointSpace_small")
    ctx.model("PointSpace", "PointSpace_large")
    ctx.model("PointSpace", "PointSpace_neg_last", "Componentwise")
    ctx.model("PointSpace", "PointSpace_neg_squared", "SquaredTriangle")
    ctx.build()
    cases = []
    scalars = [(1, 1), (2, 1), (1, 2), (0, 1), (-1, 1), (3, 1), (1, 3), (-5, 7), (1, 1024), (7, 64), (1, 5)]

    def add(a, b, scalar, prec, s, **more):
        cases.append(dict(op="points", dim=len(a), prec=prec, S=s, metric="E", a=list(a), b=list(b),
                          num=scalar[0], den=scalar[1], **more))
    # unit directions and the zero point: every coordinate on its own
    for dim in (2, 3, 5):
        units = [[v if i == j else 0 for j in range(dim)] for i in range(dim) for v in (1, -3)] + [[0] * dim]
        for n, (a, b) in enumerate(itertools.product(units, units)):
            add(a, b, scalars[n % len(scalars)], ("f32", "f64")[n % 2], (1, 4, 64)[n % 3], neg=n % 5 == 0)
    for _ in range(ctx.pick(3000, 30000)):
        dim = rng.choice((2, 3, 5))
        m = rng.choice((1, 5, 100, 250))
        a = [rng.randint(-m, m) for _ in range(dim)]
        b = list(a) if rng.random() < 0.15 else [rng.randint(-m, m) for _ in range(dim)]
        if rng.random() < 0.2:  # equal up to one coordinate
            b = list(a)
            b[rng.randrange(dim)] += rng.choice((1, -1, 7))
        if rng.random() < 0.05:
            a = [0] * dim
        prec = rng.choice(("f32", "f64"))
        more = dict(exp=magnitude(rng, prec), sexp=magnitude(rng, prec))
        if rng.random() < 0.3:  # negative zeros
            more["neg"] = True
        if rng.random() < 0.3:
            more["off"] = translation(rng, dim, prec, 16, 30)
        add(a, b, rng.choice(scalars), prec, rng.choice((1, 4, 64, 1024)), **more)
    records = ctx.execute(cases)
    ctx.samples = records[len(records) // 2: len(records) // 2 + 2]
    ctx.validate("TracePoints", "TracePoints", records)
    ctx.assumptions += ["coordinates are lattice points scaled by powers of two, quotients are compared with a tolerance"]
    return False


CHECKS = {"P21": p21}
