import math
from lib import gens, ref
from lib.core import Verdict
from lib.barcheck import *

TARGETS = ("LHF",)
RULE = ("generated point clouds with loops, voids, ties and full cliques (4 to 24 points) run through the executable with dimensions 2 to 4, "
        "every complex type and scales between the distances; the lines of dimension >= 1 of the barcode file are matched one to one "
        "(tolerance of the printed decimals) against a separately written Z/2 reduction of the Vietoris-Rips complex. "
        "Non-trivial: the reference has at least one interval of positive length; distinct: its intervals, rounded")
MIN_DISTINCT = 60
KINDS = ["circle", "circle", "twocircles", "sphere", "sphere", "uniform", "gauss", "gridset", "grid", "clusters", "dups", "square", "star", "chains", "mixedscale", "neardegen", "neardegen", "neardegen", "jitter", "multiplicity", "bigscale", "shifted", "smallscale"]


def suspension(rng, k, h):
    """k-gon with two poles: one void."""
    r = rng.uniform(2, 3)
    pts = [[r * math.cos(2 * math.pi * i / k), r * math.sin(2 * math.pi * i / k), rng.gauss(0, .05)] for i in range(k)]
    pts += [[0, 0, h * r], [0, 0, -h * r]]
    rng.shuffle(pts)
    return pts


def crosspoly(rng, k, noise):
    """cross polytope in k dimensions: one class of dimension k-1"""
    r = rng.uniform(1.0, 3.0)
    pts = [[(sg * r if a == i else 0.0) + rng.gauss(0, noise) for a in range(k)] for i in range(k) for sg in (1, -1)]
    rng.shuffle(pts)
    return pts


def join(rng, k):
    """k-gon joined with another one: sphere of dimension 3"""
    a = [[2 * math.cos(2 * math.pi * i / k), 2 * math.sin(2 * math.pi * i / k), rng.gauss(0, .03), rng.gauss(0, .03)] for i in range(k)]
    b = [[rng.gauss(0, .03), rng.gauss(0, .03), 2 * math.cos(2 * math.pi * i / 4), 2 * math.sin(2 * math.pi * i / 4)] for i in range(4)]
    pts = a + b
    rng.shuffle(pts)
    return pts


def lens(rng, n, mid=False):
    """ladder that is widest in the middle: the outer squares are filled first, each claims
    its inner rung, so the square in the middle is reduced by all of them in turn"""
    c, p = rng.uniform(0.05, 0.4), n * (0.5 if mid else rng.uniform(0.2, 0.8)) - 0.3
    w = [1 + c * (1 - abs(i - p) / n) for i in range(n)]
    pts = [[0.9 * i, s * w[i] / 2] for i in range(n) for s in (1, -1)]
    rng.shuffle(pts)
    return pts, math.hypot(0.9, max(w)) + 0.01


def bulge(rng, k, noise, mid=False):
    """the same in two dimensions: lattice whose spacing shrinks away from a centre"""
    c = rng.uniform(0.05, 0.3)
    o = [(k - 1) * (0.5 if mid else rng.uniform(0.35, 0.65)) for _ in range(2)]
    pts = []
    for i in range(k):
        for j in range(k):
            x, y = i - o[0], j - o[1]
            f = 1 + c * (1 - (x * x + y * y) / (1.7 * k * k))
            pts.append([x * f + rng.gauss(0, noise), y * f + rng.gauss(0, noise)])
    rng.shuffle(pts)
    return pts, (1 + c) * 1.42 + 5 * noise


def tube(rng, m, k):
    """ring of k points times a ring or line of m: loops that run around everything"""
    closed = rng.random() < 0.5
    r = k / (2 * math.pi)
    big = m / (2 * math.pi) * 1.3 + r
    pts = []
    for i in range(m):
        for j in range(k):
            a = 2 * math.pi * (j + 0.5 * (i % 2)) / k
            if closed:
                b = 2 * math.pi * i / m
                p = [(big + r * math.cos(a)) * math.cos(b), (big + r * math.cos(a)) * math.sin(b), r * math.sin(a)]
            else:
                p = [i * 0.9, r * math.cos(a), r * math.sin(a)]
            pts.append([x + rng.gauss(0, 0.01) for x in p])
    rng.shuffle(pts)
    return pts


def gear(rng, m):
    """hexagonal patch of a triangular lattice with squares along its six sides: the patch is
    filled first and its column keeps all the sides, which then close the squares one by one"""
    c = rng.uniform(0.03, 0.08)
    pts = []
    for a in range(-m, m + 1):
        for b in range(-m, m + 1):
            if abs(a + b) <= m:
                x, y = a + b / 2, b * math.sqrt(3) / 2
                f = 1 + c * (1 - (x * x + y * y) / (2 * m * m))
                pts.append([x * f, y * f])
    corner = [[z * (1 + c * 0.5) for z in (m * math.cos(math.pi * k / 3), m * math.sin(math.pi * k / 3))] for k in range(6)]
    for k in range(6):
        p, q = corner[k], corner[(k + 1) % 6]
        nx, ny = math.cos(math.pi * (k + 0.5) / 3), math.sin(math.pi * (k + 0.5) / 3)
        for t in range(m + 1):
            # where the bent side is, a little closer together, and out
            x, y = p[0] + (q[0] - p[0]) * t / m, p[1] + (q[1] - p[1]) * t / m
            l = math.hypot(x, y) / (1 + c * 0.5)
            f = (1 + c * (1 - l * l / (2 * m * m))) / (1 + c * 0.5)
            mx, my = (p[0] + q[0]) / 2, (p[1] + q[1]) / 2
            x, y = x * f, y * f
            h = rng.uniform(0.8, 0.9)
            x, y = mx + (x - mx) * 0.96, my + (y - my) * 0.96
            pts.append([x + h * nx, y + h * ny])
    pts = [[x + rng.gauss(0, 1e-4) for x in p] for p in pts]
    rng.shuffle(pts)
    return pts


def sparse_eps(rng, d, deg):
    """scale at which a point has about deg neighbours"""
    v = sorted(x for i, r in enumerate(d) for x in r[:i])
    return v[min(len(v) - 1, len(d) * deg // 2)] * 1.0000123 + 1e-7


def gen(rng, tier):
    total = {"few": 183, "sample": 1100, "quick": 2200}.get(tier, 11000)
    i = 0
    for _ in range(total):
        kind = KINDS[i % len(KINDS)]
        dim = rng.choice([2, 2, 2, 3, 3, 4])
        ctype = rng.choice(TYPES + ["simplexTree"])
        cap = {2: 22, 3: 13, 4: 9}[dim]
        if ctype == "simplexArrayList":
            cap = {2: 12, 3: 9, 4: 8}[dim]
        n = rng.randint(4, cap)
        if dim >= 3 and rng.random() < 0.35:
            pts = suspension(rng, max(4, min(cap - 2, rng.randint(4, 8))), rng.uniform(0.8, 1.2))
            kind = "suspension"
        else:
            pts = gens.cloud(rng, n, rng.choice([2, 2, 3]) if kind not in ("sphere",) else 3, kind)
        if len(pts) > cap + 2:
            continue
        if rng.random() < 0.03:
            f = 2.0 ** rng.randint(30, 160)
            pts = [[x * f for x in p] for p in pts]
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d)
        if ref.near_eps(d, eps):
            continue
        extra = rng.choice([[], ["-m", "standard"], ["-p", "distMatrix.neighGraph.rips.fastPersistence"], ["-p", "distMatrix.neighGraph.fast"]])
        if ctype == "simplexTree" and rng.random() < 0.2:
            extra = ["--mode", "fast"]
        i += 1
        yield cli_case("c%d" % i, pts, eps, dim, ctype, extra, rng.choice(["repr", "17g"]), {"kind": kind}, long=rng.random() < 0.3)
    # one bigger cloud per complex type and degree
    for j, (n, dim, ctype) in enumerate([(30, 2, "simplexTree"), (26, 2, "indSimplexTree"), (16, 2, "simplexArrayList"), (15, 3, "simplexTree"), (14, 3, "indSimplexTree")]):
        pts = gens.cloud(rng, n, 2 if dim == 2 else 3, "circle" if dim == 2 else "sphere")
        d = ref.dist_matrix(pts)
        yield cli_case("big%d" % j, pts, round(max(map(max, d)) * 0.7, 6), dim, ctype)
    quick = tier != "thorough"
    # high dimensions
    for j in range(30 if quick else 200):
        k = rng.choice([3, 4, 4, 5])
        pts = crosspoly(rng, k, rng.choice([0.0, 0.01, 0.1])) if rng.random() < 0.6 or k != 4 else join(rng, rng.choice([4, 5]))
        if len(pts) < 9 and rng.random() < 0.5:
            pts.append([rng.gauss(0, 3) for _ in pts[0]])
        dim = rng.choice([k, k, k - 1, min(k + 1, 6)]) if len(pts) < 10 else k
        d = ref.dist_matrix(pts)
        eps = max(map(max, d)) * rng.choice([0.85, 0.99, 1.2])
        if ref.near_eps(d, eps):
            continue
        t = rng.choice(TYPES)
        yield cli_case("hd%d" % j, pts, eps, dim, t if len(pts) < 10 else "simplexTree", meta={"kind": "highdim"})
    # long reductions: strips, filled circles, hollow shells
    for j in range(25 if quick else 200):
        what = rng.choice(["lens", "bulge", "bulge", "circle", "tube", "shell"]) if j > 6 else ["lens", "bulge", "circle", "tube", "shell", "lens", "bulge"][j]
        dim = 2
        if what == "lens":
            pts, eps = lens(rng, rng.choice([20, 40, 70, 100, 150]) if j else 150, j == 0)
        elif what == "bulge":
            pts, eps = bulge(rng, {1: 19, 6: 42}.get(j) or rng.randint(6, 16), 0 if j in (1, 6) else rng.choice([0, 0, 0.01, 0.03]), j in (1, 6))
        elif what == "circle":
            n = rng.randint(26, 36)
            r = rng.uniform(1.5, 5)
            pts = [[r * math.cos(2 * math.pi * i / n) + rng.gauss(0, 0.01 * r), r * math.sin(2 * math.pi * i / n) + rng.gauss(0, 0.01 * r)] for i in range(n)]
            rng.shuffle(pts)
            eps = r * rng.uniform(1.76, 1.86)
        elif what == "tube":
            pts = tube(rng, rng.choice([8, 12, 16]), rng.choice([5, 6, 8]))
            eps = rng.uniform(1.3, 1.9)
        else:
            dim = 3
            n = rng.randint(13, 17)
            pts = [[math.sqrt(1 - z * z) * math.cos(2.39996 * i), math.sqrt(1 - z * z) * math.sin(2.39996 * i), z] for i, z in ((i, 1 - (2 * i + 1) / n) for i in range(n))]
            pts = [[x + rng.gauss(0, 0.02) for x in p] for p in pts]
            rng.shuffle(pts)
            eps = rng.uniform(1.6, 1.95)
        d = ref.dist_matrix(pts)
        if ref.near_eps(d, eps):
            continue
        sz = sum(map(len, ref.rips(d, eps, dim)))
        if sz > (25000 if j == 6 else 7000):
            continue
        yield cli_case("long%d" % j, pts, eps, dim, rng.choice(TYPES) if sz < 1000 else rng.choice(["simplexTree", "indSimplexTree"]), meta={"kind": what, "heavy": 1})
    for j in range(12 if quick else 120):
        pts = gear(rng, rng.choice([2, 3, 3, 4]))
        d = ref.dist_matrix(pts)
        eps = rng.choice([1.35, 1.5, 1.5, 1.6])
        if ref.near_eps(d, eps):
            continue
        yield cli_case("gear%d" % j, pts, eps, 2, rng.choice(["simplexTree", "indSimplexTree"]), meta={"kind": "gear", "heavy": 1})
    # many points, few neighbours each: long-range order of the filtration, big indices
    for j in range(24 if quick else 160):
        n = rng.choice([40, 64, 70, 100, 130, 200, 257, 300])
        dim = rng.choice([2, 2, 3, 4])
        kind = rng.choice(["uniform", "gauss", "gridset", "clusters", "jitter", "twocircles", "chains", "multiplicity"])
        pts = gens.cloud(rng, n, rng.choice([2, 3]), kind)
        d = ref.dist_matrix(pts)
        eps = sparse_eps(rng, d, rng.choice([4, 6, 8]))
        if ref.near_eps(d, eps):
            continue
        lv = ref.rips(d, eps, dim)
        sz = sum(map(len, lv))
        if sz > 4000:
            continue
        t = rng.choice(TYPES) if sz < 1000 else rng.choice(["simplexTree", "indSimplexTree"])
        yield cli_case("sp%d" % j, pts, eps, dim, t, meta={"kind": kind, "heavy": 1})


def judge(c, o):
    bars, bad = bars_of(o)
    if bad:
        return Verdict([bad])
    m = c.meta
    d = ref.dist_matrix(m["pts"])
    _, exp = ref.vr_bars(m["pts"], m["eps"], m["dim"], d, inclusive=False)
    got = [b for b in bars if b[0] != 0]
    v = []
    tol = tol_for(d)
    wrong = [b for b in got if b[0] < 1 or b[0] >= m["dim"]]
    if wrong:
        v.append(("dimension", "intervals outside dimensions 1..%d: %s" % (m["dim"] - 1, show(wrong))))
    if any(b[2] < b[1] - tol or b[1] < -tol or b[2] > m["eps"] + tol for b in got):
        v.append(("range", "an interval ends before it begins or leaves [0, epsilon]: " + show(got)))
    ue, ug = ref.match(exp, got, tol)
    if ue:
        v.append(("missing", "not reported (eps %.6f, %s, %d points): %s" % (m["eps"], m["ctype"], len(d), show(ue))))
    if ug:
        v.append(("invented", "reported but not there (eps %.6f, %s, %d points): %s" % (m["eps"], m["ctype"], len(d), show(ug))))
    sig = None
    if exp:
        sig = "n=%d " % len(d) + show([(a, round(b, 3), round(e, 3)) for a, b, e in exp], 12)
    return Verdict(v, sig, evals=len(exp) + len(got), events=len(bars))
