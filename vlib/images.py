"""Images for the palette checks, and the witness labelling of their density clusters. The
witness only has to convince TracePalette.tla, which verifies it pixel by pixel."""
import math

UNIT, RADIUS2, MARGIN, MINPTS = 400000, 1.0e8, 1.6e5, 25


def lab_of(c):
    lin = [v / 255 / 12.92 if v / 255 <= 0.04045 else ((v / 255 + 0.055) / 1.055) ** 2.4 for v in c]
    m = ((0.412391, 0.357584, 0.180481), (0.212639, 0.715169, 0.072192), (0.019331, 0.119195, 0.950532))
    xyz = [sum(a * b for a, b in zip(row, lin)) for row in m]
    xyz = [min(v, t) for v, t in zip(xyz, (0.950456, 1.0, 1.088644))]
    f = [t ** (1 / 3) if t > (6 / 29) ** 3 else 841 / 108 * t + 4 / 29
         for t in (v / wp for v, wp in zip(xyz, (0.95046, 1.0, 1.08906)))]
    return 116 * f[1] - 16, 500 * (f[0] - f[1]), 200 * (f[1] - f[2])


def feature(c):
    l, a, b = lab_of(c)
    return l * UNIT / 100, a * UNIT / 255, b * UNIT / 255


class Undecided(Exception):
    pass


def witness(w, h, colors, px, eps2=RADIUS2, minpts=MINPTS):
    """Labels, parents and levels of the dense pixels (1-based), or Undecided."""
    n = w * h
    feats = [feature(c) for c in colors]
    col = [[sum((x - y) ** 2 for x, y in zip(f, g)) for g in feats] for f in feats]
    far = eps2 + MARGIN
    offs = []
    rx, ry = math.ceil(w * 0.03), math.ceil(h * 0.03)
    for dy in range(-min(ry, h - 1), min(ry, h - 1) + 1):
        for dx in range(-min(rx, w - 1), min(rx, w - 1) + 1):
            d = (UNIT * dx / w) ** 2 + (UNIT * dy / h) ** 2
            if d <= far:
                offs.append((dx, dy, d))
    sure, may = [()] * n, [()] * n
    core = [False] * n
    sure_lim = eps2 - MARGIN
    for y in range(h):
        rows = [(dx, y + dy, d) for dx, dy, d in offs if 0 <= y + dy < h]
        for x in range(w):
            p = y * w + x
            mine = col[px[p] - 1]
            s, m = [], []
            for dx, yy, d in rows:
                xx = x + dx
                if 0 <= xx < w:
                    q = yy * w + xx
                    dd = mine[px[q] - 1] + d
                    if dd <= sure_lim:
                        s.append(q)
                    elif dd <= far:
                        m.append(q)
            sure[p], may[p] = s, m
            if len(s) >= minpts:
                core[p] = True
            elif len(s) + len(m) >= minpts:
                raise Undecided("density")
    lab, up, lev, k = [0] * n, [0] * n, [0] * n, 0
    for p in range(n):
        if core[p] and not lab[p]:
            k += 1
            lab[p] = k
            queue = [p]
            for q in queue:
                for r in sure[q]:
                    if core[r] and not lab[r]:
                        lab[r], up[r], lev[r] = k, q + 1, lev[q] + 1
                        queue.append(r)
    contested = 0
    for p in range(n):
        near = {lab[q] for q in sure[p]} - {0}
        all_ = near | ({lab[q] for q in may[p]} - {0})
        if core[p]:
            if all_ != {lab[p]}:
                raise Undecided("link")
        elif len(all_) > 1 or near != all_:
            contested += 1
    return dict(k=k, lab=lab, up=up, lev=lev), contested


# ---------------------------------------------------------------------------------- colours
def rand_color(rng):
    return [rng.randint(0, 255) for _ in range(3)]


def near_color(rng, c, step):
    return [max(0, min(255, v + rng.randint(-step, step))) for v in c]


def palette(rng, n):
    """Colours at all kinds of distances from one another."""
    out = [rand_color(rng)]
    while len(out) < n:
        style = rng.randrange(6)
        if style == 0:
            c = rand_color(rng)
        elif style == 1:
            c = near_color(rng, rng.choice(out), 3)
        elif style == 2:
            c = near_color(rng, rng.choice(out), 8)
        elif style == 3:
            c = near_color(rng, rng.choice(out), 25)
        elif style == 4:
            v = rng.randint(0, 255)
            c = [v, v, v]
        else:
            c = [rng.choice((0, 255, 128)) for _ in range(3)]
        if c not in out:
            out.append(c)
    return out


class Canvas:
    def __init__(self, w, h):
        self.w, self.h, self.colors, self.px, self.index = w, h, [], [0] * (w * h), {}

    def color(self, c):
        c = tuple(c)
        if c not in self.index:
            self.index[c] = len(self.colors) + 1
            self.colors.append(list(c))
        return self.index[c]

    def set(self, x, y, c):
        self.px[y * self.w + x] = self.color(c)

    def fill(self, f):
        for y in range(self.h):
            for x in range(self.w):
                self.set(x, y, f(x, y))
        return self


def size_ok(s):
    """Shifts that coincide with the radius are undecided: avoid multiples of 40."""
    return s % 40 != 0 or s == 0


def pick_size(rng, lo, hi):
    while True:
        s = rng.randint(lo, hi)
        if size_ok(s):
            return s


# ---------------------------------------------------------------------------------- strips
def strip(rng, vertical=None):
    """A one pixel high (or wide) image."""
    n = pick_size(rng, *rng.choice(((481, 519), (521, 700), (700, 1000), (1001, 1239), (1001, 1239))))
    line = []
    cols = palette(rng, rng.randint(2, 7))
    style = rng.randrange(9)
    if style == 0:  # pieces of all lengths around the density limit
        while len(line) < n:
            line += [rng.choice(cols)] * rng.choice((1, 3, 10, 12, 13, 23, 24, 25, 26, 27, 40, 60, 100))
    elif style == 1:  # few long pieces
        while len(line) < n:
            line += [rng.choice(cols)] * rng.randint(30, 220)
    elif style == 2:  # pieces separated by noise
        while len(line) < n:
            line += [rng.choice(cols)] * rng.randint(15, 70)
            line += [rand_color(rng) for _ in range(rng.choice((1, 5, 11, 12, 13, 14, 24, 25, 26, 27, 40)))]
    elif style == 3:  # two colours, mixed
        ratio = rng.choice((0.5, 0.3, 0.15))
        line = [cols[0] if rng.random() < ratio else cols[1] for _ in range(n)]
    elif style == 4:  # gradient
        c, d = rng.choice(cols), rand_color(rng)
        steps = rng.choice((4, 8, 16, 32))
        line = [[round(a + (b - a) * (i * steps // n) / steps) for a, b in zip(c, d)] for i in range(n)]
    elif style == 5:  # one colour, with holes
        line = [cols[0]] * n
        for _ in range(rng.randint(1, 6)):
            at, size = rng.randrange(n), rng.choice((1, 5, 12, 13, 14, 25, 26, 30, 50))
            for i in range(at, min(n, at + size)):
                line[i] = cols[1 % len(cols)] if size < 20 else rand_color(rng)
    elif style == 6:  # the same colour at both ends and in between
        m = rng.randint(60, n // 2 - 40)
        line = [cols[0]] * m + [cols[1]] * (n - m - rng.randint(30, m - 10))
        line += [cols[0]] * (n - len(line))
    elif style == 7:  # slightly varying colours
        line = [near_color(rng, cols[0 if i < n // 2 else 1], 2) for i in range(n)]
    else:  # a chain of neighbouring shades
        step = rng.choice((1, 2, 3, 5, 7, 8))
        c = [rng.randint(0, 120)] * 3
        while len(line) < n:
            line += [list(c)] * rng.choice((12, 25, 26, 30, 50))
            c = [min(255, v + step) for v in c]
    line = line[:n]
    vertical = rng.random() < 0.4 if vertical is None else vertical
    img = Canvas(1, n) if vertical else Canvas(n, 1)
    return img.fill(lambda x, y: line[x + y])


def mixture(rng):
    """One row (or column) of pieces, each a mixture of close shades: mean colours of all kinds."""
    n = rng.randint(700, 1239)
    line = []
    while len(line) < n:
        c = rand_color(rng)
        shades = [c] + [near_color(rng, c, rng.choice((1, 2, 3))) for _ in range(rng.choice((1, 1, 2, 4)))]
        share = rng.random()
        line += [c if rng.random() < share else rng.choice(shades) for _ in range(rng.randint(35, 110))]
    return (Canvas(1, n) if rng.random() < 0.3 else Canvas(n, 1)).fill(lambda x, y: line[x + y])


def two_strips(rng):
    """Two or three rows or columns: pixels of different lines are never near."""
    n, m = pick_size(rng, 521, 900), rng.choice((2, 3))
    cols = palette(rng, 4)
    cut = [rng.randint(30, n - 30) for _ in range(m)]
    vertical = rng.random() < 0.5
    f = lambda x, y: cols[(y + (x >= cut[y])) % len(cols)]
    return Canvas(m, n).fill(lambda x, y: f(y, x)) if vertical else Canvas(n, m).fill(f)


# ---------------------------------------------------------------------------------- pictures
SHAPES = ((130, 130), (210, 90), (90, 210), (290, 70), (70, 290), (141, 123), (250, 82), (121, 150), (410, 50), (50, 410))


def picture(rng, shape=None):
    w, h = shape or rng.choice(SHAPES)
    w, h = w + rng.randint(0, 6), h + rng.randint(0, 6)
    while not (size_ok(w) and size_ok(h)):
        w, h = w + (not size_ok(w)), h + (not size_ok(h))
    cols = palette(rng, rng.randint(3, 7))
    img = Canvas(w, h)
    style = rng.randrange(9)
    if style == 0:  # blocks
        gx, gy = rng.randint(1, 4), rng.randint(1, 4)
        grid = [[rng.choice(cols) for _ in range(gx)] for _ in range(gy)]
        img.fill(lambda x, y: grid[y * gy // h][x * gx // w])
    elif style == 1:  # rectangles on a background
        img.fill(lambda x, y: cols[0])
        for _ in range(rng.randint(2, 7)):
            c = rng.choice(cols)
            x0, y0 = rng.randrange(w), rng.randrange(h)
            for y in range(y0, min(h, y0 + rng.randint(1, h // 2))):
                for x in range(x0, min(w, x0 + rng.randint(1, w // 2))):
                    img.set(x, y, c)
    elif style == 2:  # noise with islands
        img.fill(lambda x, y: cols[rng.randrange(len(cols))])
        for _ in range(rng.randint(2, 5)):
            c = rand_color(rng)
            cx, cy, r = rng.randrange(w), rng.randrange(h), rng.uniform(0.05, 0.2)
            for y in range(h):
                for x in range(w):
                    if ((x - cx) / w) ** 2 + ((y - cy) / h) ** 2 < r * r:
                        img.set(x, y, c)
    elif style == 3:  # a diagonal border, off centre
        k = rng.uniform(0.3, 1.5)
        img.fill(lambda x, y: cols[0] if x / w < k * y / h else cols[1])
    elif style == 4:  # gradient along one axis, and a block
        c, d = cols[0], rand_color(rng)
        steps = rng.choice((4, 9, 20))
        horizontal = rng.random() < 0.5
        bx, by = rng.randint(20, w - 10), rng.randint(20, h - 10)

        def f(x, y):
            if x >= bx and y >= by:
                return cols[1]
            i = (x * steps // w) if horizontal else (y * steps // h)
            return [round(a + (b - a) * i / steps) for a, b in zip(c, d)]
        img.fill(f)
    elif style == 5:  # the same colour in different places
        img.fill(lambda x, y: cols[1] if (x * 3 // w) % 2 == 1 or (y * 2 // h) == 1 and x < w // 2 else cols[0])
    elif style == 6:  # thin lines
        gap = rng.choice((2, 3, 5, 8))
        img.fill(lambda x, y: cols[2] if (y if w > h else x) % gap == 0 else cols[0 if x < w * 0.6 else 1])
    elif style == 7:  # shapes around one centre, some of the same colour
        edges, at = [], 0.0
        while at < 0.5:
            at += rng.choice((0.03, 0.06, 0.1, 0.15))
            edges.append((at, cols[len(edges) % 2 if rng.random() < 0.8 else 2]))
        round_ = rng.random() < 0.5

        def g(x, y):
            u, v = abs(2 * x - (w - 1)) / (2 * w), abs(2 * y - (h - 1)) / (2 * h)
            d = math.sqrt(u * u + v * v) if round_ else max(u, v)
            return next((c for e, c in edges if d < e), cols[0])
        img.fill(g)
    else:  # slightly varying shades in two halves
        shades = [[near_color(rng, cols[k], 2) for _ in range(6)] for k in (0, 1)]
        cut = rng.uniform(0.2, 0.8)
        img.fill(lambda x, y: rng.choice(shades[0 if y / h < cut else 1]))
    return img


# ---------------------------------------------------------------------------------- blocks
def apart(c, others, feats):
    """The colour is far from all others (squared feature distance above the radius)."""
    f = feature(c)
    return all(sum((x - y) ** 2 for x, y in zip(f, g)) > 1.1 * RADIUS2 for g in feats)


def foreign(rng, count, feats):
    """Colours that are far from each other and from the given features."""
    out, feats = [], list(feats)
    while len(out) < count:
        c = rand_color(rng)
        if apart(c, None, feats):
            out.append(c)
            feats.append(feature(c))
    return out


def gap(s, n, t, m):
    return s - (t + m - 1) if s > t + m - 1 else t - (s + n - 1) if t > s + n - 1 else 0


def undecided_blocks(w, h, colors, blocks):
    feats = [feature(c) for c in colors]
    for i, a in enumerate(blocks):
        for b in blocks[:i]:
            d = sum((x - y) ** 2 for x, y in zip(feats[a[4] - 1], feats[b[4] - 1]))
            d += (UNIT * gap(a[0], a[2], b[0], b[2]) / w) ** 2 + (UNIT * gap(a[1], a[3], b[1], b[3]) / h) ** 2
            if abs(d - RADIUS2) <= MARGIN:
                return True
    return False


def cuts(rng, size, parts, least):
    """Parts of the given size, each at least that long."""
    while True:
        at = sorted(rng.sample(range(1, size), parts - 1)) if parts > 1 else []
        edges = [0] + at + [size]
        if all(b - a >= least for a, b in zip(edges, edges[1:])):
            return edges


def tiled(rng, w, h, parts=(1, 4)):
    """A large image cut into rectangles; colours may be near, equal or far."""
    while True:
        cols = palette(rng, rng.randint(1, 6))
        xs = cuts(rng, w, rng.randint(*parts) if w > 60 else 1, max(1, min(w, w // 25 + 4)))
        blocks = []
        for a, b in zip(xs, xs[1:]):
            ys = cuts(rng, h, rng.randint(*parts) if h > 60 else 1, max(1, min(h, h // 25 + 4)))
            blocks += [[a, c, b - a, d - c, rng.randint(1, len(cols))] for c, d in zip(ys, ys[1:])]
        rng.shuffle(blocks)
        if not undecided_blocks(w, h, cols, blocks):
            return dict(w=w, h=h, colors=cols, blocks=blocks, noise=[], slope=0)


def equals(rng):
    """Blocks in noise whose numbers of pixels differ by one or two, or not at all."""
    while True:
        area = rng.randint(70, 200)
        shapes = [(a, b) for a in range(5, 30) for b in range(5, 30) if abs(a * b - area) <= 2]
        if len({a * b for a, b in shapes}) > 1:
            return scattered(rng, rng.randint(170, 230), rng.randint(170, 230), rng.randint(6, 14), None, shapes)


def scattered(rng, w, h, count, size, shapes=None):
    """Blocks in noise: few dense pixels in an image of any size."""
    while True:
        cols = palette(rng, rng.randint(1, 5))
        blocks = []
        for _ in range(count):
            bw, bh = rng.choice(shapes) if shapes else (min(w, rng.randint(*size)), min(h, rng.randint(*size)))
            # also at the very ends of the image
            x, y = rng.choice((0, w - bw, rng.randint(0, w - bw))), rng.choice((0, h - bh, rng.randint(0, h - bh)))
            if all(x >= b[0] + b[2] or b[0] >= x + bw or y >= b[1] + b[3] or b[1] >= y + bh for b in blocks):
                blocks.append([x, y, bw, bh, rng.randint(1, len(cols))])
        if undecided_blocks(w, h, cols, blocks):
            continue
        # noise colours recur with a period; few of them are within reach of one another
        rx, ry = (w * 101) // 4000, (h * 101) // 4000
        k, slope = 1, rng.choice((1, 7, 13) if min(rx, ry) < 12 else (23, 29, 37))
        while True:
            k = k + 1
            if sum(1 for dx in range(-rx, rx + 1) for dy in range(-ry, ry + 1) if (dx + slope * dy) % k == 0) < MINPTS - 1:
                break
        noise = foreign(rng, k, [feature(c) for c in cols])
        n = len(cols)
        return dict(w=w, h=h, colors=cols + noise, blocks=blocks, noise=list(range(n + 1, n + 1 + k)), slope=slope)


def wide(rng):
    """More columns (or rows) than 16 bits can count."""
    n = 65536 + rng.randint(1, 2500)
    while n % 40 == 0:
        n += 1
    img = scattered(rng, n, 1, rng.randint(2, 6), (1700, 3000) if rng.random() < 0.3 else (200, 2500))
    if rng.random() < 0.5:
        turn(img)
    return img


def far(rng):
    """One row (or column) so long that the coordinates of a cluster add up to more than 2^32."""
    n = rng.randint(392000, 399999)
    while True:
        img = scattered(rng, n, 1, rng.randint(1, 2), (200, 900))
        size = 2 ** 32 * rng.randint(102, 104) // 100 // (n - 5600)
        if any(b[0] + b[2] > n - size - n // 38 for b in img["blocks"]):
            continue
        img["blocks"].append([n - size - rng.choice((0, 1, 37)), 0, size, 1, rng.randint(1, len(img["colors"]) - len(img["noise"]))])
        if not undecided_blocks(n, 1, img["colors"], img["blocks"]):
            if rng.random() < 0.5:
                turn(img)
            return img


def whole(rng):
    """Bands from edge to edge whose mean coordinates are whole numbers."""
    while True:
        w, n = 2 * rng.randint(350, 499 if rng.random() < 0.6 else 619) + 1, rng.randint(8, 14)
        rows = [rng.choice((41, 43, 45, 47, 51, 53, 57)) for _ in range(n)]
        h = sum(rows)
        if h % 40 == 0:
            continue
        cols, blocks, y = foreign(rng, 3, []), [], 0
        for i, size in enumerate(rows):
            blocks.append([0, y, w, size, i % 3 + 1])
            y += size
        img = dict(w=w, h=h, colors=cols, blocks=blocks, noise=[], slope=0)
        if undecided_blocks(w, h, cols, blocks):
            continue
        if rng.random() < 0.4:
            turn(img)
        return img


def turn(img):
    img["w"], img["h"] = img["h"], img["w"]
    img["blocks"] = [[y, x, bh, bw, c] for x, y, bw, bh, c in img["blocks"]]
    if img["noise"]:
        img["slope"] = 1  # one row or column only


def large(rng):
    """More pixels than 16 bits can count; often in one cluster."""
    w, h = rng.choice(((257, 263), (300, 221), (211, 317), (281, 251), (150, 443), (523, 127)))
    r = rng.random()
    if r < 0.25:  # nearly everything is one colour
        img = tiled(rng, w, h, (1, 1))
        c = foreign(rng, 1, [feature(c) for c in img["colors"]])[0]
        img["colors"].append(c)
        k = rng.randint(12, 30)
        img["blocks"] = [[0, 0, w, h - k, img["blocks"][0][4]], [0, h - k, w, k, len(img["colors"])]]
        return img
    if r < 0.75:
        return tiled(rng, w, h)
    return scattered(rng, w, h, rng.randint(2, 8), (12, 60))


def mosaic(rng):
    """Hundreds of clusters: cells of colours that differ from those of their neighbours."""
    while True:
        w, h = rng.randint(205, 290), rng.randint(205, 290)
        cols = foreign(rng, 6, [])
        xs, ys = cuts_even(rng, w, rng.randint(16, 20), w // 40 + 2), cuts_even(rng, h, rng.randint(16, 20), h // 40 + 2)
        joins = rng.choice((0, 0, 0.02, 0.1))
        blocks = []
        for i, (a, b) in enumerate(zip(xs, xs[1:])):
            for j, (c, d) in enumerate(zip(ys, ys[1:])):
                k = rng.randint(1, 6) if rng.random() < joins else 1 + i % 2 + 2 * (j % 2)
                blocks.append([a, c, b - a, d - c, k])
        if not undecided_blocks(w, h, cols, blocks):
            return dict(w=w, h=h, colors=cols, blocks=blocks, noise=[], slope=0)


def verge(rng, want, tries=4000):
    """Two colours whose squared distance is next to the wanted one, mostly in one component."""
    axis = rng.randrange(3)
    for _ in range(tries):
        a = rand_color(rng)
        b = near_color(rng, a, 14)
        d = [(x - y) ** 2 for x, y in zip(feature(a), feature(b))]
        if abs(sum(d) - want) < 1.0e6 and d[axis] > 0.6 * sum(d):
            return a, b
    return a, b


def edgy(rng):
    """Blocks whose distances are next to the radius, on either side."""
    while True:
        k = rng.randint(10, 19)
        w, h = 40 * k + rng.choice((-3, -2, -1, 1, 2, 3)), rng.randint(82, 110)
        cols, blocks, x = [], [], 0
        while x < w - 60:
            r = rng.random()
            if r < 0.6:     # shades next to one another
                a, b = verge(rng, RADIUS2 - (UNIT / w) ** 2)
                parts = [(a, rng.randint(12, 90)), (b, rng.randint(12, 90))]
            else:           # a gap
                a, b = foreign(rng, 2, [feature(c) for c in cols])
                parts = [(a, rng.randint(12, 60)), (b, k - 1), (a, rng.randint(12, 60))]
            for c, size in parts:
                if c not in cols:
                    cols.append(c)
                blocks.append([x, 0, size, h, cols.index(c) + 1])
                x += size
        if x > w:
            blocks[-1][2] -= x - w
        elif x < w:
            cols.append(foreign(rng, 1, [feature(c) for c in cols])[0])
            blocks.append([x, 0, w - x, h, len(cols)])
        if not all(b[2] > 0 and dense(w, h, b) for b in blocks) or undecided_blocks(w, h, cols, blocks):
            continue
        img = dict(w=w, h=h, colors=cols, blocks=blocks, noise=[], slope=0)
        if rng.random() < 0.4:
            turn(img)
        return img


def nested(rng):
    """Frames around a small block, which may be as small as a cluster can be."""
    while True:
        w, h = rng.randint(236, 320), rng.randint(236, 320)
        cols = foreign(rng, 3, [])
        n, blocks = 0, []
        x0, y0, x1, y1 = 0, 0, w, h
        even = rng.random() < 0.5
        while x1 - x0 > 36 and y1 - y0 > 36 and len(blocks) < 24:
            k = rng.randint(8, 40)
            if even:
                a, b, c, d = x0 + k, y0 + k, x1 - k, y1 - k
            else:
                a, b = x0 + rng.randint(8, 40), y0 + rng.randint(8, 40)
                c, d = x1 - rng.randint(8, 40), y1 - rng.randint(8, 40)
            if c - a < 14 or d - b < 14:
                break
            n += 1
            q = n % 3 if rng.random() < 0.4 else n % 2
            blocks += [[x0, y0, x1 - x0, b - y0, q + 1], [x0, d, x1 - x0, y1 - d, q + 1],
                       [x0, b, a - x0, d - b, q + 1], [c, b, x1 - c, d - b, q + 1]]
            x0, y0, x1, y1 = a, b, c, d
        cols.append(foreign(rng, 1, [feature(c) for c in cols])[0])
        # the rest: a small block of 6 x 6 or more, within four others
        size = rng.choice((5, 5, 6, 7))
        a, b = rng.randint(x0, x1 - size), rng.randint(y0, y1 - size)
        blocks.append([a, b, size, size, 4])
        q = (n + 1) % 2 + 1
        for r in ([x0, y0, x1 - x0, b - y0, q], [x0, b + size, x1 - x0, y1 - b - size, q],
                  [x0, b, a - x0, size, q], [a + size, b, x1 - a - size, size, q]):
            if r[2] > 0 and r[3] > 0:
                blocks.append(r)
        img = dict(w=w, h=h, colors=cols, blocks=blocks, noise=[], slope=0)
        if all(dense(w, h, b) for b in blocks) and not undecided_blocks(w, h, cols, blocks):
            rng.shuffle(blocks)
            return img


def dense(w, h, b):
    return sum((UNIT * x / w) ** 2 + (UNIT * y / h) ** 2 < RADIUS2 - MARGIN
               for x in range(min(b[2], w // 30)) for y in range(min(b[3], h // 30))) >= MINPTS


def cuts_even(rng, size, parts, least):
    """Parts of about equal size, each at least that long (and more than the reach)."""
    spare = size - parts * least
    if spare < 0:
        return cuts_even(rng, size, parts - 1, least)
    marks = sorted(rng.randint(0, spare) for _ in range(parts - 1))
    return [0] + [m + least * (i + 1) for i, m in enumerate(marks)] + [size]


def block_case(img, rng, judge, prec):
    return dict(op="extract", judge=judge, prec=prec, alpha=rng.choice((255, 255, 0, 128, rng.randint(256, 99999))), **img)


def case(img, rng, judge, prec):
    return dict(op="extract", judge=judge, prec=prec, w=img.w, h=img.h, colors=img.colors, px=img.px,
                alpha=rng.choice((255, 255, 0, 128, rng.randint(256, 99999))))


def decided(rng, make, tries=200):
    """An image whose clusters are decided, with its witness."""
    for _ in range(tries):
        img = make(rng)
        try:
            wit, contested = witness(img.w, img.h, img.colors, img.px)
        except Undecided:
            continue
        if len(img.colors) > 250 or wit["k"] > 40:
            continue
        if wit["k"] == 0 and rng.random() < 0.85:
            continue
        if contested and rng.random() < 0.5:
            continue
        return img, wit
    raise RuntimeError("no decided image found")


def huge(rng):
    """Half a million pixels and more, nearly all of them noise."""
    w, h = rng.choice(((1237, 823), (721, 1283), (1021, 507), (2101, 483)))
    return scattered(rng, w, h, rng.randint(2, 5), (20, 70))
