import math
from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *

TARGETS = ("LHF",)
CHUNK = 6
RULE = ("each generated cloud is run once as is and again with its rows shuffled or reversed, coordinates permuted, coordinates mirrored, all points shifted, "
        "points and epsilon scaled by one factor, and points repeated; barcode files are matched one to one after undoing the scaling. Shifts and factors are chosen so that "
        "no distance lies near epsilon. Non-trivial: at least two intervals; distinct: the intervals, rounded")
MIN_DISTINCT = 40


def gen(rng, tier):
    total = {"few": 36, "sample": 220, "quick": 440}.get(tier, 2500)
    for i in range(total):
        kind = gens.KINDS[i % len(gens.KINDS)]
        dim = rng.choice([1, 2, 2, 3, 3])
        n = rng.randint(3, {1: 20, 2: 13, 3: 9}[dim])
        nd = rng.choice([2, 2, 3, 4])
        large = i % 8 == 7          # more points with few neighbours each
        if large:
            n = rng.choice([30, 40, 65, 70])
            dim = rng.choice([1, 2])
            pts = gens.cloud(rng, n, nd, rng.choice(["uniform", "gauss", "clusters", "gridset", "chains", "circle", "jitter"]))
        else:
            pts = gens.cloud(rng, n, nd, kind)[:13]
        nd = len(pts[0])
        if rng.random() < 0.4 and max(abs(x) for p in pts for x in p) < 4096:
            # coordinates with few binary digits: large shifts are exact
            pts = [[round(x * 64) / 64.0 for x in p] for p in pts]
        exact = all(x * 64 == round(x * 64) and abs(x) < 2 ** 30 for p in pts for x in p)
        d = ref.dist_matrix(pts)
        # keep clear of epsilon: rounding in the transformed copy must not change the complex
        for _ in range(20):
            eps = gens.pick_eps(rng, d)
            if large:
                w = sorted(x for k, r in enumerate(d) for x in r[:k])
                eps = w[n * rng.choice([2, 3])] * 1.000123 + 1e-5
            if all(abs(x - eps) > 1e-6 * (1 + eps) for r in d for x in r):
                break
        else:
            continue
        t = rng.choice(TYPES)
        if t == "simplexArrayList" and len(pts) > 10:
            dim = min(dim, 2)
        if large and sum(map(len, ref.rips(d, eps, dim))) > 600:
            continue
        style = rng.choice(["repr", "17g"])
        sh = list(range(len(pts)))
        rng.shuffle(sh)
        variants = [("as is", pts, 1.0), ("rows shuffled", [pts[k] for k in sh], 1.0)]
        more = []
        pc = list(range(nd))
        rng.shuffle(pc)
        more.append(("coordinates permuted", [[p[k] for k in pc] for p in pts], 1.0))
        sg = [rng.choice([1, -1]) for _ in range(nd)]
        more.append(("coordinates mirrored", [[x * s for x, s in zip(p, sg)] for p in pts], 1.0))
        off = [rng.uniform(-50, 50) for _ in range(nd)]
        more.append(("shifted", [[x + a for x, a in zip(p, off)] for p in pts], 1.0))
        if exact:
            off = [rng.choice([-1, 1]) * float(2 ** rng.choice([20, 27, 30, 33])) for _ in range(nd)]
            more.append(("shifted far, exactly", [[x + a for x, a in zip(p, off)] for p in pts], 1.0))
            more.append(("shifted far along one coordinate", [[x + (off[0] if k == 0 else 0.0) for k, x in enumerate(p)] for p in pts], 1.0))
        f = rng.choice([0.5, 2.0, 3.0, 10.0, 0.125, 37.5])
        more.append(("scaled by %g" % f, [[x * f for x in p] for p in pts], f))
        more.append(("rows reversed", pts[::-1], 1.0))
        dup = rng.sample(pts, min(len(pts), rng.randint(1, 2)))
        more.append(("%d points repeated" % len(dup), pts + dup if rng.random() < 0.5 else dup + pts, 1.0))
        base = rng.sample(pts, min(len(pts), rng.randint(1, 2)))
        dup3 = base * rng.choice([2, 3, 4])
        if large or len(pts) + len(dup3) <= (14 if dim < 3 else 12):
            more.append(("%d points repeated" % len(dup3), pts + dup3 if rng.random() < 0.5 else dup3 + pts, 1.0))
        if tier != "thorough":
            more = rng.sample(more, 4)
        variants += more
        runs = [cli_case("r%d" % k, q, eps * s, dim, t, (), style) for k, (_, q, s) in enumerate(variants)]
        yield Case("c%d" % i, "multi", runs=runs, meta={"v": [(a, s, len(q) - len(pts)) for a, q, s in variants], "d": d, "eps": eps})


def judge(c, o):
    v = []
    res = []
    for (name, s, extra), x in zip(c.meta["v"], o.subs):
        bars, bad = bars_of(x)
        if bad:
            v.append((bad[0], name + ": " + bad[1]))
            bars = []
        res.append(bars)
    if v:
        return Verdict(v)
    first = res[0]
    for (name, s, extra), b in list(zip(c.meta["v"], res))[1:]:
        b = [(k, x / s, y / s) for k, x, y in b]
        tol = 2 * tol_for(c.meta["d"]) + 1e-6 / s + 1e-9
        a0 = sorted(x[2] for x in first if x[0] == 0)
        b0 = sorted(x[2] for x in b if x[0] == 0)
        b0z = b0[extra:]
        if extra and any(x > tol for x in b0[:extra]):
            v.append(("invariance", "%s: the repeated points give dimension-0 intervals up to %s" % (name, b0[:extra])))
        elif len(a0) != len(b0z) or any(abs(x - y) > tol for x, y in zip(a0, b0z)):
            v.append(("invariance", "%s: dimension-0 deaths %s became %s" % (name, a0[:10], b0z[:10])))
        u1, u2 = ref.match([x for x in first if x[0]], [x for x in b if x[0]], tol)
        if u1 or u2:
            v.append(("invariance", "%s: lost %s; gained %s" % (name, show(u1), show(u2))))
    sig = show([(a, round(x, 3), round(y, 3)) for a, x, y in first], 20) if len(first) > 1 else None
    return Verdict(v, sig, evals=len(res) - 1, events=sum(map(len, res)))
