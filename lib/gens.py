"""Point clouds and other inputs the monitors drive the code with."""
import math
import itertools


def rnd(x, q):
    return round(x, q)


def cloud(rng, n, dim, kind):
    """Returns a list of n points (n may be adjusted by the kind)."""
    if kind == "uniform":
        return [[rng.uniform(0, 10) for _ in range(dim)] for _ in range(n)]
    if kind == "gauss":
        return [[rng.gauss(0, 3) for _ in range(dim)] for _ in range(n)]
    if kind == "grid":          # many exact ties
        return [[float(rng.randint(0, 3)) for _ in range(dim)] for _ in range(n)]
    if kind == "gridset":       # distinct lattice points
        side = 3 if dim >= 2 else n + 2
        while side ** dim < n:
            side += 1
        allp = set()
        while len(allp) < n:
            allp.add(tuple(rng.randint(0, side - 1) for _ in range(dim)))
        l = [list(map(float, p)) for p in allp]
        l.sort()
        rng.shuffle(l)
        return l
    if kind == "clusters":
        k = rng.randint(2, 4)
        cs = [[rng.uniform(-20, 20) for _ in range(dim)] for _ in range(k)]
        return [[c + rng.gauss(0, 0.7) for c in rng.choice(cs)] for _ in range(n)]
    if kind == "circle":
        r = rng.uniform(1.5, 4)
        ph = rng.uniform(0, 6.28)
        pts = []
        for i in range(n):
            a = ph + 2 * math.pi * i / n + rng.gauss(0, 0.05)
            p = [r * math.cos(a), r * math.sin(a)] + [rng.gauss(0, 0.1) for _ in range(dim - 2)]
            pts.append(p[:dim])
        rng.shuffle(pts)
        return pts
    if kind == "twocircles":
        h = n // 2
        return cloud(rng, h, dim, "circle") + [[x + 9 for x in p] for p in cloud(rng, n - h, dim, "circle")]
    if kind == "sphere":        # octahedron / cross polytope plus noise: H_2
        pts = []
        r = rng.uniform(1.5, 3)
        d = max(dim, 3)
        for i in range(3):
            for s in (1, -1):
                p = [0.0] * d
                p[i] = s * r
                pts.append([x + rng.gauss(0, 0.05) for x in p])
        while len(pts) < n:
            v = [rng.gauss(0, 1) for _ in range(3)]
            l = math.sqrt(sum(x * x for x in v)) or 1.0
            pts.append([r * x / l for x in v] + [0.0] * (d - 3))
        rng.shuffle(pts)
        return pts[:max(n, 6)]
    if kind == "line":
        return [[rng.uniform(0, 12)] + [0.0] * (dim - 1) for _ in range(n)]
    if kind == "dups":
        base = [[rng.uniform(0, 6) for _ in range(dim)] for _ in range(max(1, n // 2))]
        return [list(rng.choice(base)) for _ in range(n)]
    if kind == "far":           # everything further apart than any epsilon used
        return [[1000.0 * i] + [rng.uniform(0, 1) for _ in range(dim - 1)] for i in range(n)]
    if kind == "mixedscale":
        return [[rng.choice([0.01, 1.0, 5.0]) * rng.uniform(-1, 1) for _ in range(dim)] for _ in range(n)]
    if kind == "negative":
        return [[-rng.uniform(0, 10) for _ in range(dim)] for _ in range(n)]
    if kind == "square":        # regular polygon with exact coordinates
        pts = [[0.0, 0.0], [2.0, 0.0], [2.0, 2.0], [0.0, 2.0]][:max(4, n)]
        pts = [p + [0.0] * (dim - 2) for p in pts] if dim >= 2 else [[p[0] + p[1]] for p in pts]
        while len(pts) < n:
            pts.append([rng.uniform(0, 6) for _ in range(dim)])
        rng.shuffle(pts)
        return pts
    if kind == "star":          # one hub joins many components at once
        hub = [0.0] * dim
        pts = [hub]
        for i in range(n - 1):
            a = 2 * math.pi * i / max(1, n - 1)
            r = rng.uniform(2, 4)
            pts.append(([r * math.cos(a), r * math.sin(a)] + [0.0] * dim)[:dim])
        rng.shuffle(pts)
        return pts
    if kind == "chains":        # merging long chains: joins of big components
        pts = []
        k = rng.randint(2, 3)
        for c in range(k):
            x = 0.0
            for i in range(n // k + 1):
                x += rng.uniform(0.5, 1.0)
                pts.append(([x, 2.5 * c + rng.gauss(0, 0.05)] + [0.0] * dim)[:dim])
        rng.shuffle(pts)
        return pts[:n]
    if kind == "neardegen":     # cross polytopes with perturbations far below their size: tiny intervals
        s = rng.choice([1.0, 100.0, 1000.0, 1e4, 1e5])
        pts = []
        c = 0.0
        while len(pts) < n:
            h = rng.choice([1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9])
            if dim >= 2 and n - len(pts) >= 4 and rng.random() < 0.6:
                # rhombus whose short diagonal is a little longer than its sides: a loop that hardly lives
                e = s * (1 + rng.uniform(0, h))
                b = math.sqrt(e * e - (s * (1 + 2 * h) / 2) ** 2)
                for x, y in ((s * (1 + 2 * h) / 2, 0.0), (-s * (1 + 2 * h) / 2, 0.0), (0.0, b), (0.0, -b)):
                    pts.append([c + x, y] + [0.0] * (dim - 2))
                c += rng.choice([2.0, 3.0, 50.0]) * s
                continue
            for i in range(dim):
                for sg in (1, -1):
                    p = [rng.gauss(0, h) * s if rng.random() < 0.5 else 0.0 for _ in range(dim)]
                    p[i] += sg * s * rng.choice([1.0, 1.0, 1.0 + h])
                    p[0] += c
                    pts.append(p)
            c += rng.choice([2.0, 3.0, 50.0]) * s
        pts = pts[:n]
        rng.shuffle(pts)
        return pts
    if kind == "jitter":        # lattice with jitter of any size
        h = rng.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-5])
        s = rng.choice([1.0, 1.0, 10.0, 1000.0])
        return [[s * (x + rng.choice([0, rng.uniform(-h, h)])) for x in p] for p in cloud(rng, n, dim, "gridset")]
    if kind == "multiplicity":  # points repeated three times and more, next to each other or not
        pts = []
        while len(pts) < n:
            pts += [[float(rng.randint(0, 5)) if rng.random() < 0.5 else rng.uniform(0, 6) for _ in range(dim)]] * rng.choice([1, 1, 2, 3, 3, 4, 5])
        pts = [list(p) for p in pts[:n]]
        if rng.random() < 0.6:
            rng.shuffle(pts)
        return pts
    if kind == "bigscale":
        f = rng.choice([50.0, 1000.0, 4096.0, 12345.678, 1e5, 1e6])
        return [[x * f for x in p] for p in cloud(rng, n, dim, rng.choice(BASIC))]
    if kind == "smallscale":
        f = rng.choice([0.1, 0.01, 1e-3, 1 / 64.0])
        return [[x * f for x in p] for p in cloud(rng, n, dim, rng.choice(BASIC))]
    if kind == "shifted":       # small differences of large coordinates, exact
        o = [rng.choice([-1, 1]) * float(2 ** rng.choice([0, 10, 20, 27, 30])) for _ in range(dim)]
        q = rng.choice([1.0, 4.0, 64.0])
        return [[round(x * q) / q + a for x, a in zip(p, o)] for p in cloud(rng, n, dim, rng.choice(["uniform", "gauss", "grid", "clusters", "gridset"]))]
    raise ValueError(kind)


BASIC = ["uniform", "gauss", "grid", "gridset", "clusters", "circle", "twocircles", "sphere", "line", "dups", "far",
         "mixedscale", "negative", "square", "star", "chains"]
KINDS = BASIC + ["neardegen", "jitter", "multiplicity", "bigscale", "smallscale", "shifted", "neardegen", "multiplicity"]


def fmt(x, style, rng=None):
    """Exactly parsed back by strtod."""
    if style == "repr":
        return repr(float(x))
    if style == "17g":
        return "%.17g" % x
    if style == "e":
        return "%.17e" % x
    if style == "E":
        return ("%.17e" % x).upper()
    if style == "plus":
        return ("+" if x >= 0 and math.copysign(1, x) > 0 else "") + repr(float(x))
    if style == "sp":
        return "  " + repr(float(x)) + " "
    raise ValueError(style)


def csv(pts, style="repr"):
    return "".join(",".join(fmt(x, style) for x in r) + "\n" for r in pts)


def pick_eps(rng, d):
    """A scale that is interesting for the distance matrix d: below all, between
    two distances, above all; sometimes exactly on one."""
    n = len(d)
    vals = sorted(set(d[i][j] for i in range(n) for j in range(i + 1, n)))
    pos = [v for v in vals if v > 0]
    if not pos:
        return 1.0
    r = rng.random()
    if r < 0.06:
        return pos[0] * 0.5
    top = pos[-1]
    if r < 0.35:
        return top * 1.25 + (0.5 if rng.random() < 0.5 else 0.0)
    i = rng.randrange(len(pos))
    if i + 1 < len(pos) and pos[i + 1] - pos[i] > 1e-4 * top:
        e = (pos[i] + pos[i + 1]) / 2
    else:
        e = pos[i] * 1.1 + 0.001 * top
    if r < 0.45 and pos[i] == int(pos[i]):
        return pos[i]
    return e
