"""Random lattice datasets."""
import math

HUGE = 2000000000   # stands for the largest number, or for infinity


def point(rng, dim, m):
    return [rng.randint(-m, m) for _ in range(dim)]


def dataset(rng, dim, n, m):
    """n lattice points with coordinates in -m..m in one of several shapes."""
    style = rng.randrange(9)
    if style == 0:  # uniform
        return [point(rng, dim, m) for _ in range(n)]
    if style == 1:  # many duplicates
        base = [point(rng, dim, m) for _ in range(max(1, n // 4))]
        return [list(rng.choice(base)) for _ in range(n)]
    if style == 2:  # on an axis
        axis, at = rng.randrange(dim), point(rng, dim, m)
        out = []
        for _ in range(n):
            p = list(at)
            p[axis] = rng.randint(-m, m)
            out.append(p)
        return out
    if style == 3:  # blobs
        centers = [point(rng, dim, m) for _ in range(rng.randint(1, 4))]
        w = max(1, m // 6)
        return [[max(-m, min(m, c + rng.randint(-w, w))) for c in rng.choice(centers)] for _ in range(n)]
    if style == 4:  # one axis constant, ties on the others
        at = rng.randint(-m, m)
        return [[at] + [rng.randint(0, min(2, m)) for _ in range(dim - 1)] for _ in range(n)]
    if style == 5:  # sorted along the first axis
        return sorted(point(rng, dim, m) for _ in range(n))
    if style == 6:  # diagonal chain
        out = []
        for i in range(n):
            v = -m + (2 * m * i) // max(1, n - 1)
            out.append([max(-m, min(m, v + rng.randint(-1, 1))) for _ in range(dim)])
        rng.shuffle(out)
        return out
    if style == 7:  # a far away point
        out = [point(rng, dim, max(1, m // 10)) for _ in range(n)]
        if out:
            out[rng.randrange(n)] = [rng.choice((-m, m)) for _ in range(dim)]
        return out
    # tiny range: lots of equal distances
    return [point(rng, dim, min(2, m)) for _ in range(n)]


def ring(rng, dim, n, radius=15000):
    """Points at nearly equal distances from a centre (squared distances that differ by a few units in
    about 2 * 10^8), and the centre: only double precision tells them apart."""
    want = radius * radius
    found = []
    for x in rng.sample(range(1, radius), 6000):
        y = int(math.sqrt(want - x * x))
        found.append((want - x * x - y * y, x, y))
    found.sort()
    center = point(rng, dim, 20)
    axes = rng.sample(range(dim), 2)
    out = []
    for rest, x, y in found[:n]:
        p = list(center)
        if rng.random() < 0.5:
            x, y = y, x
        p[axes[0]] += x * rng.choice((-1, 1))
        p[axes[1]] += y * rng.choice((-1, 1))
        for a in range(dim):
            if a not in axes and rng.random() < 0.5:
                p[a] += rng.choice((-2, -1, 1, 2))
        out.append(p)
    rng.shuffle(out)
    return out, center


def magnitude(rng, prec):
    """A power of two by which all coordinates (or weights) are scaled: squares stay representable."""
    top = 40 if prec == "f32" else 300
    return rng.choice((0, 0, 0, 0, -20, rng.randint(-top, top), rng.randint(-30, 30)))


def translation(rng, dim, prec, single, double):
    """A translation of all points, in lattice units below 2^single (f32) or 2^double (f64)."""
    top = 2 ** (single if prec == "f32" else double)
    return [rng.randint(-top, top) for _ in range(dim)]


def variant(rng, single=0, double=0):
    """dimension, precision, scale and metric."""
    v = dict(dim=rng.choice((2, 2, 3, 5)), prec=rng.choice(("f32", "f64")),
             S=rng.choice((1, 4, 64, 256, 1024)), metric=rng.choice("ES"))
    v["exp"] = magnitude(rng, v["prec"])
    v["neg"] = rng.random() < 0.3   # zero coordinates are negative zeros
    if rng.random() < 0.25 and (single if v["prec"] == "f32" else double):
        v["off"] = translation(rng, v["dim"], v["prec"], single, double)
    return v


def d2(p, q):
    return sum((a - b) ** 2 for a, b in zip(p, q))


def size(rng, top):
    return rng.choice((0, 1, 2, 3, rng.randint(0, 8), rng.randint(0, top), rng.randint(top // 2, top)))
