"""P16 (Prim.tla, Trees.tla), P17, P18 (Dendrogram.tla, Linkage.tla), P20 (Forest.tla,
UnionFind.tla); recorded behaviours are judged by TraceGraphs.tla."""
from .points import d2, dataset, magnitude


def matrix(rng, n, prec="f32", style=None):
    """Symmetric weights; sometimes negative, in double precision sometimes large with small differences."""
    w = plain_matrix(rng, n, rng.randrange(10) if style is None else style)
    low = -rng.randint(0, 1000) if rng.random() < 0.25 else 0
    if prec == "f64" and n <= 16 and rng.random() < 0.2:
        low = rng.choice((-50000000, 50000000))
    return [[0 if i == j else x + low for j, x in enumerate(row)] for i, row in enumerate(w)]


def plain_matrix(rng, n, style):
    if style == 0:
        pts = dataset(rng, 2, n, rng.choice((2, 10, 60)))
        f = lambda i, j: d2(pts[i], pts[j])
    elif style == 1:
        f = lambda i, j: rng.randint(0, 3)
    elif style == 2:
        f = lambda i, j: 7
    elif style == 3:
        order = rng.sample(range(n * n + 1), n * n + 1)
        f = lambda i, j: order[i * n + j]
    elif style == 4:  # a chain in a random order
        perm = rng.sample(range(n), n)
        f = lambda i, j: 1 + abs(perm[i] - perm[j]) ** 2
    elif style == 5:  # a star
        hub = rng.randrange(n) if n else 0
        f = lambda i, j: rng.randint(1, 4) if hub in (i, j) else rng.randint(4, 9)
    elif style == 6:  # two groups
        f = lambda i, j: rng.randint(1, 5) if (i < n // 2) == (j < n // 2) else rng.randint(5, 1000)
    elif style == 7:  # groups that are joined by few of many heavy edges
        size = rng.choice((n // 2 + 1, n // 3 + 1, n // 5 + 1))
        f = lambda i, j: rng.randint(1, 50) if i // size == j // size else 1000 + i + j
    elif style == 8:  # the same, members of the groups all over the vertices
        size, low = rng.choice((2, 3, 5)), rng.sample(range(n), n)
        f = lambda i, j: rng.randint(1, 50) if i % size == j % size else 1000 + low[i] + low[j]
    else:
        f = lambda i, j: rng.randint(0, 1000)
    w = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            w[i][j] = w[j][i] = f(i, j)
    return w


def graph_cases(ctx, op, judge, top, count, large):
    rng = ctx.rng
    out = []
    for gen in ["GenGraphs_4"] + (["GenGraphs_5"] if ctx.thorough else []):
        for no, g in enumerate(ctx.generate("GenGraphs", gen)):
            out.append(dict(op=op, judge=judge, w=g["w"], S=(1, 4, 1024)[no % 3], prec=("f32", "f64")[no % 2]))
    for _ in range(count):
        n = rng.choice((1, 2, 3, rng.randint(2, 8), rng.randint(4, top), rng.randint(4, top), top))
        prec = rng.choice(("f32", "f64"))
        out.append(dict(op=op, judge=judge, w=matrix(rng, n, prec), S=rng.choice((1, 4, 1024)), prec=prec, exp=magnitude(rng, prec)))
    for no, n in enumerate(large):
        prec = rng.choice(("f32", "f64"))
        out.append(dict(op=op, judge=judge, w=matrix(rng, n, prec, (7, 8, 0, 9, 6, 4)[no % 6]), S=rng.choice((1, 4, 1024)), prec=prec, exp=magnitude(rng, prec)))
    return out


def larger(ctx, count, top):
    """Sizes of the larger graphs: a few beyond 256, the others 20 to 150."""
    return [top - i for i in range(ctx.pick(4, 12))] + [ctx.rng.randint(20, 150) for _ in range(ctx.pick(count, 8 * count))]


def run(ctx, cases):
    records = ctx.execute(cases)
    ctx.samples = records[len(records) // 2: len(records) // 2 + 2]
    ctx.validate("TraceGraphs", "TraceGraphs", records)
    return False


def p16(ctx):
    ctx.model("Prim", ctx.pick("Prim_small", "Prim_large"))
    ctx.model("Prim", "Prim_live")
    ctx.model("Prim", "Prim_neg", "Growing")
    ctx.build()
    ctx.assumptions += ["weights are integers scaled by powers of two, sums are exact"]
    return run(ctx, graph_cases(ctx, "mst", "P16", ctx.pick(16, 24), ctx.pick(1200, 10000), larger(ctx, 24, 300)))


def p17(ctx):
    ctx.model("Dendrogram", ctx.pick("Dendrogram_small", "Dendrogram_large"))
    ctx.model("Dendrogram", "Dendrogram_live")
    ctx.model("Dendrogram", "Dendrogram_neg_order", "NearestPair")
    ctx.model("Dendrogram", "Dendrogram_any")
    ctx.model("Dendrogram", "Dendrogram_neg_any", "AlwaysRight")
    ctx.build()
    ctx.assumptions += ["weights are integers scaled by powers of two"]
    return run(ctx, graph_cases(ctx, "hier", "P17", ctx.pick(14, 20), ctx.pick(1200, 8000), larger(ctx, 24, 290)))


def p18(ctx):
    ctx.model("Dendrogram", ctx.pick("Dendrogram_small", "Dendrogram_large"))
    ctx.model("Dendrogram", "Dendrogram_neg_split", "CutCorrect")
    ctx.build()
    ctx.assumptions += ["weights are integers scaled by powers of two"]
    return run(ctx, graph_cases(ctx, "hier", "P18", ctx.pick(12, 18), ctx.pick(900, 8000), larger(ctx, 16, 270)))


def histories(rng, count, top):
    """Long random sequences of operations; the driver keeps the sets to know the current roots."""
    out = []
    for _ in range(count):
        n = rng.choice((1, 2, 3, 5, rng.randint(2, top), top))
        roots, nxt, ops = list(range(1, n + 1)), n + 1, []
        finds = rng.choice((0, 0.1, 0.5, 0.8))
        shape = rng.choice(("chain", "random", "balanced"))
        while len(roots) > 1 and rng.random() > 0.01:
            while rng.random() < finds:
                ops.append([rng.randint(1, nxt - 1)])
            if shape == "chain":
                a = nxt - 1 if nxt > n + 1 else rng.choice(roots)
                b = rng.choice([r for r in roots if r != a])
            elif shape == "balanced":
                a, b = roots[0], roots[1]
            else:
                a, b = rng.sample(roots, 2)
            if rng.random() < 0.5:
                a, b = b, a
            ops.append([a, b])
            roots = [r for r in roots if r not in (a, b)] + [nxt]
            nxt += 1
        # finally ask for everything, twice, in different orders
        ops += [[x] for x in rng.sample(range(1, nxt), nxt - 1)]
        ops += [[x] for x in rng.sample(range(1, nxt), nxt - 1)]
        out.append(dict(op="uf", n=n, ops=ops))
    return out


def long_chain(rng, n):
    """Joins without any find in between: the deepest possible forest; then questions from the bottom."""
    ops, top = [], 1
    order = rng.sample(range(2, n + 1), n - 1)
    for i, x in enumerate(order):
        ops.append([top, x] if rng.random() < 0.5 else [x, top])
        top = n + 1 + i
        if rng.random() < 0.03:
            ops.append([rng.choice((1, rng.randint(1, top)))])
    everything = list(range(1, top + 1))
    ops += [[1], [order[0] if order else 1], [n + 1 if n > 1 else 1]]
    ops += [[x] for x in rng.sample(everything, min(60, len(everything)))]
    return dict(op="uf", n=n, ops=ops)


def huge_chain(rng, n):
    """More labels than 16 bits count: a chain of joins as one block [0, a, b, c, ...] (a with b, the
    result with c, and so on), then finds."""
    order = rng.sample(range(1, n + 1), n)
    cut = rng.choice((n // 2, n // 3, n - 40))
    ops = [[0] + order[:cut], [order[0]], [order[1]], [n + 1]]
    ops += [[x] for x in rng.sample(range(1, n + 1), 12)]
    ops += [[0, n + cut - 1] + order[cut:]]
    ops += [[x] for x in rng.sample(range(1, 2 * n), 30)] + [[2 * n - 1], [order[-1]], [order[0]]]
    return dict(op="uf", n=n, ops=ops)


def p20(ctx):
    ctx.model("Forest", ctx.pick("Forest_small", "Forest_large"))
    ctx.model("Forest", "Forest_skip")
    ctx.model("Forest", "Forest_neg_drop", "Sound")
    ctx.model("Forest", "Forest_neg_both", "Sound")
    ctx.build()
    cases = []
    for g in ctx.generate("GenUnionFind", ctx.pick("GenUnionFind_3_4", "GenUnionFind_3_5")):
        # after every enumerated history all elements and labels are asked for
        n = 3 + sum(1 for o in g["ops"] if len(o) == 2)
        cases.append(dict(op="uf", n=3, ops=g["ops"] + [[x] for x in range(1, n + 1)]))
    cases += histories(ctx.rng, ctx.pick(500, 4000), ctx.pick(24, 48))
    # deep and large forests
    cases += histories(ctx.rng, ctx.pick(40, 300), 140)
    cases += [long_chain(ctx.rng, n) for n in (2, 3, 17, 65, 66, 70, 130, 257, 300, 1030) for _ in range(ctx.pick(2, 8))]
    cases += [huge_chain(ctx.rng, n) for n in (60, 400, ctx.pick(33000, 66000))]
    return run(ctx, cases)


CHECKS = {"P16": p16, "P17": p17, "P18": p18, "P20": p20}
