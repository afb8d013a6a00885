import math
from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *

TECHNIQUE = "runtime monitoring: metamorphic monitor (bottleneck matching) over the barcode files of runs on slightly changed data in ASan/UBSan-instrumented runs"
TARGETS = ("LHF",)
CHUNK = 6
RULE = ("each generated cloud is run, then with all points moved a little (all distances change by at most h, computed), with points added close to existing ones and with such points taken "
        "away again. The two barcodes of each pair are matched: intervals longer than 2h need a partner of the same dimension whose ends are within h. Non-trivial: an interval longer than 2h in "
        "dimension 1 or more, or at least three in dimension 0; distinct: the intervals, rounded")
MIN_DISTINCT = 60


def size(d, eps, dim):
    return sum(map(len, ref.rips(d, eps, dim + 1)))


def gen(rng, tier):
    total = {"few": 36, "sample": 150, "quick": 300}.get(tier, 2500)
    for i in range(total):
        dim = rng.choice([1, 2, 2, 2, 3, 3, 4])
        if i % 3 == 2:
            pts = gens.cloud(rng, rng.choice([30, 40, 60, 80]), rng.choice([2, 3]), rng.choice(["uniform", "gauss", "clusters", "gridset", "chains", "circle", "jitter"]))
        else:
            n = {1: 22, 2: 14, 3: 10, 4: 8}[dim]
            pts = gens.cloud(rng, rng.randint(2, n), rng.choice([1, 2, 2, 3, 4]), gens.KINDS[i % len(gens.KINDS)])[:n + 2]
        d = ref.dist_matrix(pts)
        w = sorted(x for k, r in enumerate(d) for x in r[:k])
        if not w or w[-1] == 0 or w[-1] > 1e9:
            continue
        t = rng.choice(TYPES)
        lim = 450 if t == "simplexArrayList" else 1300
        for _ in range(20):
            eps = w[rng.randrange(len(w))] * rng.choice([1.0001, 1.3]) + 1e-5 if rng.random() < 0.7 else w[-1] * 1.5
            if len(pts) >= 30:
                eps = w[min(len(w) - 1, len(pts) * rng.choice([2, 3, 4]))] * 1.000123 + 1e-5
            if size(d, eps, dim) < lim:
                break
            if size(d, eps, dim) >= 500:
                dim = max(1, dim - 1)
        else:
            continue
        nd = len(pts[0])

        def near(p, s):
            u = [rng.gauss(0, 1) for _ in range(nd)]
            l = math.sqrt(sum(x * x for x in u)) or 1.0
            f = s * rng.random()
            return [x + f * y / l for x, y in zip(p, u)]

        runs = [cli_case("r0", pts, eps, dim, t, (), "repr")]
        what = [("as is", 0.0)]
        base = rng.choice([x for x in w if x > 0])
        for s in (rng.choice([1e-9, 1e-7, 1e-6]), 1e-4, 1e-3, 1e-2, 0.1):
            s *= base
            q = [near(p, s) for p in pts]
            dq = ref.dist_matrix(q)
            h = max(abs(a - b) for x, y in zip(d, dq) for a, b in zip(x, y))
            if size(dq, eps, dim) < 1.4 * lim:
                runs.append(cli_case("r%d" % len(runs), q, eps, dim, t, (), "repr"))
                what.append(("moved", h))
        for s in (rng.choice([0.0, 0.0, 1e-12]), rng.choice([1e-9, 1e-7, 1e-6, 1e-5]), 1e-3, 0.05):
            s *= base
            q, of = list(pts), list(range(len(pts)))
            for _ in range(rng.choice([1, 2, 3])):
                k = rng.randrange(len(pts))
                at = rng.randint(0, len(q))
                q.insert(at, near(pts[k], s))
                of.insert(at, k)
            dq = ref.dist_matrix(q)
            h = max(abs(dq[a][b] - d[of[a]][of[b]]) for a in range(len(q)) for b in range(len(q)))
            if size(dq, eps, dim) < 1.4 * lim:
                runs.append(cli_case("r%d" % len(runs), q, eps, dim, t, (), "repr"))
                what.append(("points added", h))
        yield Case("c%d" % i, "multi", runs=runs, meta={"what": what, "scale": w[-1], "eps": eps, "dim": dim})


def cover(a, b, h, long):
    """Bars of a longer than `long` that no matching into b (ends within h) covers."""
    left = [x for x in a if x[2] - x[1] > long]
    adj = [[k for k, y in enumerate(b) if y[0] == x[0] and abs(x[1] - y[1]) <= h and abs(x[2] - y[2]) <= h] for x in left]
    by = {}

    def augment(k, seen):
        for y in adj[k]:
            if y not in seen:
                seen.add(y)
                if y not in by or augment(by[y], seen):
                    by[y] = k
                    return True
        return False
    return [x for k, x in enumerate(left) if not augment(k, set())]


def judge(c, o):
    m = c.meta
    v, res = [], []
    for w, x in zip(m["what"], o.subs):
        bars, bad = bars_of(x)
        if bad:
            v.append((bad[0], "%s: %s" % (w, bad[1])))
            bars = []
        res.append(bars)
    if v:
        return Verdict(v)
    tol = 4e-6 + 1e-11 * m["scale"]
    first = res[0]
    for w, b in zip(m["what"][1:], res[1:]):
        h = w[1]
        name = "%s (distances change by up to %r), epsilon %r, dimension %d" % (w[0], h, m["eps"], m["dim"])
        lost = cover(first, b, h + tol, 2 * (h + tol))
        gained = cover(b, first, h + tol, 2 * (h + tol))
        if lost or gained:
            v.append(("unstable", "%s: without partner before: %s; after: %s" % (name, show(lost), show(gained))))
    h = min([w[1] for w in m["what"][1:]] or [0.0])
    big = [x for x in first if x[2] - x[1] > 2 * (h + tol)]
    sig = show([(a, round(x, 3), round(y, 3)) for a, x, y in first], 20) if len(big) > 2 or any(x[0] for x in big) else None
    return Verdict(v, sig, evals=len(res) - 1, events=sum(map(len, res)))
