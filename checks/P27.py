import math
from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *

TARGETS = ("LHF",)
CHUNK = 6
RULE = ("each generated cloud is run at one epsilon and dimension, then with smaller epsilons (the barcode is compared with the truncated first one), with other dimensions (common dimensions are "
        "compared), with points far away added (only dimension-0 intervals up to epsilon are added) and together with a second cloud out of reach (the barcodes' union). Epsilons keep clear of "
        "all distances. Non-trivial: at least two intervals; distinct: the intervals, rounded")
MIN_DISTINCT = 60


def clear(d, eps):
    return all(abs(x - eps) > 1e-6 * (1 + eps) for r in d for x in r)


def cloud(rng, i, dim):
    large = i % 5 == 2
    if large:
        n = rng.choice([30, 40, 65, 70])
        return gens.cloud(rng, n, rng.choice([2, 3]), rng.choice(["uniform", "gauss", "clusters", "gridset", "chains", "circle", "jitter"]))
    n = rng.randint(2, {1: 22, 2: 14, 3: 10, 4: 8}[dim])
    return gens.cloud(rng, n, rng.choice([1, 2, 2, 3, 4]), gens.KINDS[i % len(gens.KINDS)])[:{1: 24, 2: 15, 3: 11, 4: 9}[dim]]


def size(d, eps, dim):
    return sum(map(len, ref.rips(d, eps, dim + 1)))


def gen(rng, tier):
    total = {"few": 36, "sample": 200, "quick": 420}.get(tier, 2500)
    for i in range(total):
        dim = rng.choice([1, 2, 2, 3, 3, 4])
        pts = cloud(rng, i, dim)
        d = ref.dist_matrix(pts)
        w = sorted(x for k, r in enumerate(d) for x in r[:k])
        if not w or w[-1] == 0:
            continue
        t = rng.choice(TYPES)
        for _ in range(20):
            eps = w[rng.randrange(len(w))] * rng.choice([1.0001, 1.3, 0.99]) + 1e-5 if rng.random() < 0.8 else w[-1] * 1.5
            if len(pts) >= 30:
                eps = w[min(len(w) - 1, len(pts) * rng.choice([2, 3]))] * 1.000123 + 1e-5
            if clear(d, eps) and size(d, eps, dim) < (500 if t == "simplexArrayList" else 1500):
                break
            if size(d, eps, dim) >= 500:
                dim = max(1, dim - 1)
        else:
            continue
        runs = [cli_case("r0", pts, eps, dim, t, (), "repr")]
        what = [("as is",)]
        lower = [x for x in w if 1e-4 < x < eps * 0.999]
        # epsilons
        for k in range(2):
            e = (rng.choice(lower) * rng.choice([1.0 + 2e-5, 1.05, 0.9]) if lower else eps * rng.choice([0.3, 0.8])) + 1e-5
            if e < eps and clear(d, e):
                runs.append(cli_case("r%d" % len(runs), pts, e, dim, t, (), "repr"))
                what.append(("eps", e))
        # dimensions
        for k in rng.sample([x for x in range(1, 6) if x != dim], 1):
            if size(d, eps, k) < (400 if t == "simplexArrayList" else 1200):
                runs.append(cli_case("r%d" % len(runs), pts, eps, k, t, (), "repr"))
                what.append(("dim", k))
        nd = len(pts[0])
        if max(abs(x) for p in pts for x in p) < 1e6 and eps < 1e6:
            far = 4 * (max(abs(x) for p in pts for x in p) + eps + 1)
            m = rng.choice([1, 1, 2, 5])
            lone = [[far * (k + 1)] + [rng.uniform(-1, 1) for _ in range(nd - 1)] for k in range(m)]
            both = pts + lone
            if rng.random() < 0.7:
                rng.shuffle(both)
            runs.append(cli_case("r%d" % len(runs), both, eps, dim, t, (), "repr"))
            what.append(("lone", m))
            n2 = rng.randint(1, {1: 20, 2: 12, 3: 9, 4: 7}[dim])
            q = gens.cloud(rng, n2, nd, rng.choice(["uniform", "gauss", "circle", "grid", "jitter", "sphere"]))[:n2]
            q = [p[:nd] + [0.0] * (nd - len(p)) for p in q]
            sc = eps * rng.choice([0.2, 0.5, 1.0]) / (1 + max(abs(x) for p in q for x in p))
            q = [[x * sc for x in p] for p in q]
            q = [[-far - eps + p[0]] + p[1:] for p in q]
            dq = ref.dist_matrix(q)
            if clear(dq, eps) and size(dq, eps, dim) < (300 if t == "simplexArrayList" else 600):
                both = q + pts if rng.random() < 0.5 else pts + q
                if rng.random() < 0.5:
                    rng.shuffle(both)
                db = ref.dist_matrix(both)
                if clear(db, eps):
                    runs.append(cli_case("r%d" % len(runs), q, eps, dim, t, (), "repr"))
                    what.append(("second",))
                    runs.append(cli_case("r%d" % len(runs), both, eps, dim, t, (), "repr"))
                    what.append(("union",))
        yield Case("c%d" % i, "multi", runs=runs, meta={"what": what, "d": d, "eps": eps, "dim": dim})


def judge(c, o):
    m = c.meta
    v, res = [], []
    for w, x in zip(m["what"], o.subs):
        bars, bad = bars_of(x)
        if bad:
            v.append((bad[0], "%s: %s" % (w, bad[1])))
            bars = []
        res.append(bars)
    if v:
        return Verdict(v)
    eps, dim = m["eps"], m["dim"]
    first = res[0]
    tol = 2 * tol_for(m["d"]) + 1e-9
    for k, (w, b) in enumerate(zip(m["what"], res)):
        want, top = None, dim
        got = b
        if w[0] == "eps":
            want = [(q, x, min(y, w[1])) for q, x, y in first if x < w[1]]
        elif w[0] == "dim":
            top = min(dim, w[1])
            want = [a for a in first if a[0] < top]
            got = [a for a in b if a[0] < top]
        elif w[0] == "lone":
            want = first + [(0, 0.0, eps)] * w[1]
        elif w[0] == "union":
            want = first + res[k - 1]
        if want is None:
            continue
        name = "%s at epsilon %r, dimension %d" % (w, eps, dim)
        a0 = sorted(x[2] for x in want if x[0] == 0)
        b0 = sorted(x[2] for x in got if x[0] == 0)
        if len(a0) != len(b0) or any(abs(x - y) > tol for x, y in zip(a0, b0)) or any(x[1] for x in got if x[0] == 0):
            v.append(("consistent-0", "%s: dimension-0 deaths %s, from the first run follow %s" % (name, b0[:10], a0[:10])))
        u1, u2 = ref.match([x for x in want if x[0]], [x for x in got if x[0]], tol)
        if u1 or u2:
            v.append(("consistent", "%s: lost %s; gained %s" % (name, show(u1), show(u2))))
    sig = show([(a, round(x, 3), round(y, 3)) for a, x, y in first], 20) if len(first) > 1 else None
    return Verdict(v, sig, evals=len(res) - 1, events=sum(map(len, res)))
