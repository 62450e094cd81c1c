"""P22: every algorithm is a function of its inputs (Calls.tla, Observer.tla, TraceCalls.tla).
P23: the order of weighted edges (EdgeQueue.tla, EdgeOrder.tla, TraceEdges.tla).
P24: the limits of colours (LimitsPath.tla, Limits.tla, TraceLimits.tla)."""
import json
from . import graphs, neighbors
from .points import dataset, variant
INF = 2_000_000_000


# ---------------------------------------------------------------------------------- P22
def request(rng, n):
    v = variant(rng, 12, 28)
    m = rng.choice((2, 6, 40))
    pts = dataset(rng, v["dim"], n, m)
    op = rng.choice(("nn", "dbscan", "core", "kmeans", "kmeans", "mst", "hier", "hier", "color"))
    if op == "nn":
        return dict(op=op, backend=rng.choice(("kdtree", "linear")), pts=pts,
                    qs=neighbors.queries(rng, pts, v["dim"], m, ("rad", "knn", "near"), 6), **v)
    if op == "dbscan":
        return dict(op=op, pts=pts, r2=rng.choice((1, 4, 5, 9, 25)), minpts=rng.choice((1, 2, 3, 5)), **v)
    if op == "core":
        return dict(op=op, pts=pts, m=rng.randint(1, max(1, n - 1)), **v)
    if op == "kmeans":
        return dict(op=op, pts=pts, k=rng.choice((1, 2, 3, 5, n)), pp=rng.random() < 0.5, seed=rng.randrange(10 ** 6),
                    iters=rng.choice((0, 1, 5, 20)), t=rng.choice((0, 100, 1024)), **v)
    if op == "color":
        return dict(op=op, prec=v["prec"], c=[rng.randint(0, 255) for _ in range(4)])
    return dict(op=op, prec=v["prec"], S=v["S"], exp=v["exp"], w=weights(rng, n))


def weights(rng, n):
    top = rng.choice((2, 5, 100))
    w = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            w[i][j] = w[j][i] = rng.randint(0, top)
    return w


def relative(rng, r):
    """A request that differs from r in little."""
    r = json.loads(json.dumps(r))
    what = rng.choice([k for k in ("pts", "qs", "r2", "minpts", "m", "k", "pp", "seed", "iters", "t", "w", "c", "metric", "prec", "S")
                       if k in r])
    if what == "pts" and r["pts"]:
        p = rng.choice(r["pts"])
        p[rng.randrange(len(p))] += rng.choice((-1, 1))
    elif what == "qs" and r["qs"]:
        rng.shuffle(r["qs"])
    elif what == "w" and len(r["w"]) > 1:
        i, j = rng.sample(range(len(r["w"])), 2)
        r["w"][i][j] = r["w"][j][i] = r["w"][i][j] + 1
    elif what == "c":
        r["c"][rng.randrange(4)] ^= 1
    elif what == "metric":
        r["metric"] = "SE"["ES".index(r["metric"])]
    elif what == "prec" and "off" not in r and abs(r.get("exp", 0)) < 30:
        r["prec"] = "f64"
    elif what == "pp":
        r["pp"] = not r["pp"]
    elif what == "S":
        r["S"] = 16
    elif what not in ("pts", "qs", "w", "prec"):
        r[what] += 1
    return r


def p22(ctx):
    rng = ctx.rng
    ctx.model("Calls", ctx.pick("Calls_small", "Calls_large"))
    ctx.model("Calls", "Calls_live")
    ctx.model("Calls", "Calls_neg_area", "Function")
    ctx.model("Calls", "Calls_neg_bysize", "Alone")
    ctx.model("Calls", "Calls_neg_generator", "Function")
    ctx.model("Calls", "Calls_neg_hashed", "Function")
    ctx.build()
    histories = [h["calls"] for h in ctx.generate("GenCalls", ctx.pick("GenCalls_2", "GenCalls_3"))]
    records = []
    for g in range(ctx.pick(40, 300)):
        n = rng.choice((3, 6, 12, 20, 40, 70))
        requests = []
        for _ in range(3):
            r = request(rng, n)
            requests += [r, relative(rng, r)]
        requests += [request(rng, n) for _ in range(4)]
        every = list(range(1, len(requests) + 1))
        same = rng.choice(every)
        procs = [[rng.sample(every, len(every))] for _ in range(2)]
        procs += [[sum(histories[g % 4::4] if len(histories) < 100 else histories[g % 20::20], [])]]
        procs += [[[same] * 4 for _ in range(4)]]
        procs += [[[rng.choice(every) for _ in range(8)] for _ in range(6)] for _ in range(ctx.pick(2, 4))]
        if g % 13 == 0:  # many calls in one process
            procs += [[[rng.choice(every) for _ in range(ctx.pick(2500, 20000))]]]
        cases = [dict(op="calls", requests=requests, threads=t) for t in procs]
        results = ctx.execute(cases, name=f"calls{g}", procs=len(cases))
        numbers, events, bad = {}, [], None
        for proc, r in enumerate(results):
            if r["outcome"] != "ok":
                bad = r if bad is None or bad["outcome"] == "skipped" else bad
                continue
            for e in r["out"]:
                events.append(dict(e, proc=proc, r=numbers.setdefault(e["r"], len(numbers) + 1) if e["e"] == "return" else 0))
        texts = [json.dumps(r, sort_keys=True, separators=(",", ":")) for r in requests]
        whole = dict(id=f"P22-{g}", op="calls", texts=texts, threads=procs)
        records.append({"in": whole, "outcome": bad["outcome"], "msg": bad.get("msg", "")} if bad else
                       {"in": whole, "outcome": "ok", "out": events})
    ctx.notes["calls"] = sum(len(r["out"]) // 2 for r in records if r["outcome"] == "ok")
    ctx.notes["processes"] = sum(len(r["in"]["threads"]) for r in records)
    ctx.samples = [r["out"][:6] for r in records[:2] if r["outcome"] == "ok"]
    ctx.validate("TraceCalls", "TraceCalls", records)
    ctx.assumptions += ["thread schedules are those of the operating system; the generator of k-means is part of the request"]
    return False


# ---------------------------------------------------------------------------------- P23
def p23(ctx):
    rng = ctx.rng
    ctx.model("EdgeQueue", ctx.pick("EdgeQueue_small", "EdgeQueue_large"))
    ctx.model("EdgeQueue", "EdgeQueue_neg_plain", "PopsLightest")
    ctx.model("EdgeQueue", "EdgeQueue_neg_vertex", "PopsLightest")
    ctx.build()
    cases = []
    for no in range(ctx.pick(1500, 15000)):
        prec = rng.choice(("f32", "f64"))
        n = rng.choice((0, 1, 2, 3, 5, 8, 14, 24))
        top = rng.choice((1, 2, 5, 30, 1000))
        style = rng.randrange(4)
        exp, base = 0, 0
        if style == 0:     # any magnitude
            exp = rng.randint(-120, 100) if prec == "f32" else rng.randint(-1000, 900)
        elif style == 1:   # neighbouring numbers
            base = 23 if prec == "f32" else 52
            exp = rng.choice((0, 0, -40, 40))
        lo = -top if rng.random() < 0.3 and base == 0 else 0
        ids = rng.choice((1, 2, 5, 10 ** 6))
        edges = []
        for _ in range(n):
            w = rng.choice((rng.randint(lo, top),) * 9 + (INF, -INF if lo else 0))
            edges.append([rng.randint(0, ids), rng.randint(0, ids), w])
            if rng.random() < 0.3:  # the same, or turned round
                e = rng.choice(edges)
                edges[-1] = rng.choice(([e[0], e[1], w], [e[1], e[0], e[2]], list(e)))
        ops, size = [], 0
        for _ in range(rng.choice((0, n, 2 * n, 3 * n)) if n else 2):
            if n and (rng.random() < 0.6 or (size == 0 and rng.random() < 0.8)):
                ops.append(rng.randint(1, n))
                size += 1
            else:
                ops.append(0)
                size = max(0, size - 1)
        ops += [0] * (size + rng.randint(0, 1))
        cases.append(dict(op="edges", prec=prec, S=rng.choice((1, 4, 256)), exp=exp, base=base, nz=no % 3 == 0, edges=edges, ops=ops))
    records = ctx.execute(cases)
    ctx.samples = records[len(records) // 2: len(records) // 2 + 2]
    ctx.notes["queue_operations"] = sum(len(c["ops"]) for c in cases)
    ctx.validate("TraceEdges", "TraceEdges", records)
    ctx.assumptions += ["weights that are no number (NaN) are not specified"]
    return False


# ---------------------------------------------------------------------------------- P24
RANGES = dict(lab=((0, 100_000_000), (-128_000_000, 127_000_000), (-128_000_000, 127_000_000)),
              xyz=((0, 950_456), (0, 1_000_000), (0, 1_088_644)))


def number(rng, lo, hi):
    style = rng.randrange(7)
    if style == 0:
        return [rng.choice((lo, hi)), rng.randint(-3, 3)]
    if style == 1:
        return [rng.choice((-INF, INF)), 0]
    if style == 2:
        return [rng.choice((rng.randint(-10 ** 9, 10 ** 9), rng.randint(-10 ** 7, 10 ** 7), 0)), 0]
    if style == 3:
        return [rng.choice((lo, hi)) + rng.randint(-20, 20), 0]
    if style == 4:
        return [rng.choice((lo, hi)) + rng.choice((-1, 1)) * rng.randint(1, hi - lo), 0]
    return [rng.randint(lo, hi), 0]


def p24(ctx):
    rng = ctx.rng
    ctx.model("LimitsPath", ctx.pick("LimitsPath_small", "LimitsPath_large"))
    ctx.model("LimitsPath", "LimitsPath_neg_wrap", "Ordered")
    ctx.model("LimitsPath", "LimitsPath_neg_open", "Kept")
    ctx.build()
    cases = []
    for no in range(ctx.pick(400, 6000)):
        space = ("lab", "xyz")[no % 2]
        vs = [[number(rng, lo, hi) for lo, hi in RANGES[space]] for _ in range(25)]
        cases.append(dict(op="limits", space=space, prec=("f32", "f64")[no // 2 % 2], vs=vs))
    records = ctx.execute(cases)
    ctx.samples = [dict(space=r["in"]["space"], v=r["in"]["vs"][0], made=r["out"][0]) for r in records[:2] if r["outcome"] == "ok"]
    ctx.notes["colours_made"] = sum(len(c["vs"]) for c in cases)
    ctx.validate("TraceLimits", "TraceLimits", records)
    return False


CHECKS = {"P22": p22, "P23": p23, "P24": p24}
