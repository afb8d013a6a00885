import math
from lib import gens, ref
from lib.core import Verdict, Case, mat, conf, fh
from lib.barcheck import TYPES

TARGETS = ("probe",)
CHUNK = 12
RULE = ("point clouds (1 to 60 points, 1 to 40 coordinates, some with up to 520 points or 1000 coordinates, magnitudes 1e-6 to 1e6) run through the distMatrix stage alone or the whole pipeline; every "
        "entry of the distance table is compared with a separately computed Euclidean distance (relative error 4e-12), the weight set exactly with the table. "
        "Non-trivial: at least two distinct points; distinct: number of points, coordinates and weights")
MIN_DISTINCT = 40


def gen(rng, tier):
    total = {"few": 133, "sample": 800, "quick": 6400}.get(tier, 32000)
    for i in range(total):
        kind = gens.KINDS[i % len(gens.KINDS)]
        whole = rng.random() < 0.3
        n = rng.choice([1, 2, 3]) if rng.random() < 0.1 else rng.randint(4, 12 if whole else 60)
        nd = rng.choice([1, 2, 3, 3, 5, 9, 40, rng.randint(1, 20), rng.randint(4, 20), rng.randint(20, 70)])
        pts = gens.cloud(rng, n, nd, kind)
        s = rng.choice([1, 1, 1, 1e-6, 1e6, 1e3])
        if s != 1:
            pts = [[x * s for x in p] for p in pts]
        if rng.random() < 0.15:
            # one deviating coordinate, in a different place per point
            pts = [[0.0] * nd for _ in range(n)]
            for k, p in enumerate(pts):
                p[k % nd] = s * (1 + k)
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d)
        yield Case("c%d" % i, "probe", "pipeline " + conf({"epsilon": "%.17g" % eps, "dimensions": 1, "complexType": rng.choice(TYPES), "debug": 0, "outputFile": "none",
                                                           "pipeline": "distMatrix.neighGraph.rips.fastPersistence" if whole else "distMatrix"}) + " " + mat(pts),
                   meta={"pts": pts, "eps": eps})
    # tables beyond the usual block sizes, long coordinate lists
    for j, (n, nd) in enumerate([(70, 2), (129, 3), (257, 2), (300, 1), (520, 2), (3, 129), (2, 300), (5, 1000), (33, 65), (65, 128), (1030, 2)]):
        if tier != "thorough" and n > 600:
            continue
        pts = gens.cloud(rng, n, nd, rng.choice(["uniform", "gauss", "clusters", "mixedscale", "shifted"]))
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d) if n < 400 else 5.0
        yield Case("big%d" % j, "probe", "pipeline " + conf({"epsilon": "%.17g" % eps, "dimensions": 1, "complexType": rng.choice(TYPES), "debug": 0, "outputFile": "none",
                                                             "pipeline": "distMatrix"}) + " " + mat(pts), meta={"pts": pts, "eps": eps, "heavy": 1})


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    pts, eps = c.meta["pts"], c.meta["eps"]
    n = len(pts)
    t = o.matrix("dist")
    v = []
    if len(t) != n or any(len(r) != n for r in t):
        return Verdict([("shape", "table has %d rows of lengths %s for %d points" % (len(t), sorted(set(map(len, t))), n))])
    w = set(fh(x) for x in o.one("weights").split())
    exp = {0.0, eps}
    evals = 0
    for i in range(n):
        for j in range(i + 1, n):
            evals += 1
            e = math.dist(pts[i], pts[j])
            if not abs(t[i][j] - e) <= 4e-12 * e + 1e-300:
                v.append(("distance", "entry (%d,%d) is %r, the points are %r apart" % (i, j, t[i][j], e)))
                break
            if t[i][j] < eps:
                exp.add(t[i][j])
    if not v and w != exp:
        a, b = sorted(w - exp)[:3], sorted(exp - w)[:3]
        v.append(("weights", "weights that should not be there: %s, missing: %s (epsilon %r)" % (a, b, eps)))
    if o.matrix("data") != pts:
        v.append(("data", "the input points were changed"))
    sig = "%d %d %d" % (n, len(pts[0]), len(w)) if len(w) > 2 else None
    return Verdict(v, sig, evals=evals, events=len(o.events))
