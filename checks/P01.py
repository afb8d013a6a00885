from lib import gens, ref
from lib.core import Verdict
from lib.barcheck import *

TARGETS = ("LHF",)
RULE = ("generated point clouds (16 shapes: random, lattice with ties, clusters, chains, hubs, duplicates, far apart..., 1 to 140 points, some with 257 to 1025, "
        "1 to 20 coordinates) run through the executable at scales below, between and above the distances, with every complex type and "
        "1 to 3 dimensions; the dimension-0 lines of the barcode file are compared with an independent union-find over all pairs. "
        "Non-trivial: at least one merge or two components; distinct: the multiset of death times, rounded")
MIN_DISTINCT = 60


def gen(rng, tier):
    total = 1000 if tier != "thorough" else 8000
    for i in range(total):
        kind = gens.KINDS[i % len(gens.KINDS)]
        big = rng.random()
        n = rng.choice([1, 2, 2, 3, 4]) if big < 0.2 else rng.randint(5, 14) if big < 0.8 else rng.randint(15, 24) if big < 0.97 else rng.choice([33, 65, 70, 101, 129, 140])
        pts = gens.cloud(rng, n, rng.choice([1, 2, 2, 3, 4, 4, rng.randint(5, 20)]), kind)
        if rng.random() < 0.04:
            # astronomic lengths: many digits before the point
            f = 2.0 ** rng.randint(30, 160)
            pts = [[x * f for x in p] for p in pts]
        dim = rng.choice([1, 1, 2, 3]) if len(pts) <= 12 else 1 if len(pts) > 16 else rng.choice([1, 2])
        ctype = rng.choice(TYPES + ["simplexTree"])
        if ctype == "simplexArrayList" and len(pts) > 10:
            dim = min(dim, 1)
            if len(pts) > 40:
                ctype = "indSimplexTree"
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d)
        if ref.near_eps(d, eps):
            continue
        extra = rng.choice([[], ["-m", "standard"], ["-p", "distMatrix.neighGraph.rips.fastPersistence"], ["-p", "distMatrix.neighGraph.fast"]])
        if ctype == "simplexTree" and rng.random() < 0.2:
            extra = ["--mode", "fast"]
        yield cli_case("c%d" % i, pts, eps, dim, ctype, extra, rng.choice(["repr", "17g"]), {"kind": kind}, long=rng.random() < 0.3)
    # sizes beyond 8- and 16-bit-ish limits, sparse and connected
    for i in range(16 if tier != "thorough" else 80):
        n = rng.choice([257, 260, 300, 300, 400, 600]) if i else 1025
        kind = rng.choice(["uniform", "gauss", "gridset", "clusters", "chains", "line", "multiplicity"]) if i else "uniform"
        pts = gens.cloud(rng, n, 2, kind)
        d = ref.dist_matrix(pts)
        e = sorted(b[2] for b in ref.h0_bars(d, 1e18))[:-1]
        # a scale at which some share of all merges has happened
        eps = (e[int(len(e) * rng.choice([0.3, 0.6, 0.9, 0.97]))] if rng.random() < 0.7 else e[-1] * 1.05) + 1e-3
        ctype = rng.choice(TYPES)
        if ctype == "simplexArrayList" and sum(x < eps for r in d for x in r) > 6000:
            ctype = "simplexTree"
        if ref.near_eps(d, eps):
            continue
        yield cli_case("large%d" % i, pts, eps, 1, ctype, [], "repr", {"kind": kind, "heavy": 1})


def judge(c, o):
    bars, bad = bars_of(o)
    if bad:
        return Verdict([bad])
    m = c.meta
    d = ref.dist_matrix(m["pts"])
    exp = ref.h0_bars(d, m["eps"])
    got = [b for b in bars if b[0] == 0]
    v = []
    tol = tol_for(d)
    if any(abs(b[1]) > tol for b in got):
        v.append(("h0-birth", "a dimension-0 interval does not start at 0: " + show(got)))
    # every point is one interval, duplicates included: compare as a multiset with zero lengths
    e = sorted(b[2] for b in exp)
    g = sorted(b[2] for b in got)
    if len(e) != len(g):
        v.append(("h0-count", "%d points, %d dimension-0 intervals reported (expected one per point)" % (len(m["pts"]), len(g))))
    elif any(abs(a - b) > tol for a, b in zip(e, g)):
        k = [i for i, (a, b) in enumerate(zip(e, g)) if abs(a - b) > tol][0]
        v.append(("h0-death", "death times differ: expected %.6f, reported %.6f (of %d)" % (e[k], g[k], len(e))))
    comps = sum(1 for x in exp if x[2] == m["eps"])
    sig = None
    if len(m["pts"]) > 1:
        sig = "n=%d comps=%d deaths=%s" % (len(e), comps, ",".join("%.3f" % x for x in e))
    return Verdict(v, sig, evals=len(e), events=len(bars))
