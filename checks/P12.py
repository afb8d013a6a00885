import math
from lib import gens, ref
from lib.core import Verdict, Case, mat, dvec, hx, fh

TARGETS = ("probe",)
CHUNK = 15
RULE = ("kd-trees over generated clouds (1 to 150 (some 1025 or up to 8300) points, 1 to 20 coordinates, duplicates, lattices, collinear points, sizes below the number of points) queried with points of the set, points near "
        "and far from it and radii from 0 to everything (lattice radii exactly on distances); results are compared with exhaustive search. "
        "Non-trivial: more than one indexed point; distinct: sizes of the answers")
MIN_DISTINCT = 60


def gen(rng, tier):
    total = {"few": 166, "sample": 1000, "quick": 6000}.get(tier, 30000)
    for i in range(total):
        kind = gens.KINDS[i % len(gens.KINDS)]
        n = rng.choice([1, 2, 3, 4]) if rng.random() < 0.2 else rng.randint(5, 150)
        nd = rng.choice([1, 2, 2, 3, 6, 9, rng.randint(1, 20)])
        if i % 50 == 0:
            n = rng.choice([256, 257, 300, 600, 1025])
        pts = gens.cloud(rng, n, nd, kind)
        nd = len(pts[0])
        size = len(pts) if rng.random() < 0.75 else rng.randint(1, len(pts))
        lattice = all(x == int(x) for p in pts for x in p)
        q = []
        ask = []
        span = max(1.0, max(max(p) for p in pts) - min(min(p) for p in pts))
        for _ in range(rng.randint(4, 16)):
            r = rng.random()
            base = rng.choice(pts)
            p = list(base) if r < 0.4 else [x + rng.gauss(0, 0.5) for x in base] if r < 0.7 else [rng.uniform(-span, 2 * span) for _ in base] if r < 0.9 else [float(round(x)) for x in base]
            if rng.random() < 0.45:
                q.append("near " + dvec(p))
                ask.append(("near", p))
            else:
                a = rng.random()
                if a < 0.2 and lattice and all(x == int(x) for x in p):
                    rad = float(rng.randint(0, 4))
                elif a < 0.3:
                    rad = 0.0
                elif a < 0.4:
                    rad = 10 * span * nd
                else:
                    rad = span * rng.uniform(0, 0.7)
                # radii on a distance only where both are exact
                if not (lattice and all(x == int(x) for x in p) and rad == int(rad)):
                    ds = [ref.dist(p, x) for x in pts]
                    if any(abs(z - rad) < 1e-9 * (1 + rad) and not (z == 0 and rad == 0) for z in ds):
                        continue
                q.append("nbhd " + dvec(p) + " " + hx(rad))
                ask.append(("nbhd", p, rad))
        yield Case("c%d" % i, "probe", "kd %d %s %d %s" % (size, mat(pts), len(q), " ".join(q)), meta={"pts": pts, "size": size, "ask": ask})
    # thousands of points
    for j in range({"few": 0, "sample": 0, "quick": 8}.get(tier, 40)):
        nd = [1, 2, 3, 2][j % 4]
        pts = [[rng.gauss(0, 3) for _ in range(nd)] for _ in range(rng.choice([2100, 4100, 5000, 8300]))]
        if j % 4 == 3:
            pts = [[float(round(x * 5)) for x in p] for p in pts]
        q, ask = [], []
        for _ in range(20):
            p = list(rng.choice(pts)) if rng.random() < 0.5 else [rng.gauss(0, 3) for _ in range(nd)]
            if rng.random() < 0.5:
                q.append("near " + dvec(p))
                ask.append(("near", p))
            else:
                rad = rng.choice([0.011, 0.1003, 0.5007, 2.0009, 40.0])
                if any(abs(ref.dist(p, x) - rad) < 1e-9 for x in pts):
                    continue
                q.append("nbhd " + dvec(p) + " " + hx(rad))
                ask.append(("nbhd", p, rad))
        yield Case("many%d" % j, "probe", "kd %d %s %d %s" % (len(pts), mat(pts), len(q), " ".join(q)), meta={"pts": pts, "size": len(pts), "ask": ask, "heavy": 1})


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    m = c.meta
    pts = m["pts"][:m["size"]]
    v = []
    ev = [e.split(" ") for e in o.events]
    k = 0
    sig = []
    nums = lambda a: [fh(x) for x in a if x]
    for a in m["ask"]:
        p = a[1]
        ds = [ref.dist(p, x) for x in pts]
        if a[0] == "near":
            e, f = ev[k], ev[k + 1]
            k += 2
            i, j = int(e[1]), int(f[1])
            best = min(ds)
            tol = 1e-9 * (1 + best)
            if not (0 <= i < len(pts)) or ds[i] > best + tol:
                v.append(("nearest-index", "nearestIndex gives %d at %s, the nearest of %d points is at %.9g" % (i, ds[i] if 0 <= i < len(pts) else "?", len(pts), best)))
            elif abs(ref.dist(p, nums(e[2:])) - best) > tol or len(nums(e[2:])) != len(p) or nums(e[2:]) not in pts:
                v.append(("nearest-point", "nearestPoint gives %s, point %d is %s" % (nums(e[2:]), i, pts[i])))
            if not (0 <= j < len(pts)) or ds[j] > best + tol or nums(f[2:]) != pts[j]:
                v.append(("nearest-pair", "nearestPointIndex gives %d with %s" % (j, nums(f[2:]))))
        else:
            want = [i for i, z in enumerate(ds) if z <= a[2]]
            got = [int(x) for x in ev[k][1:] if x]
            k += 1
            gp, gi = [], []
            while ev[k][0] != "nbend":
                if ev[k][0] == "nbpt":
                    gp.append(nums(ev[k][1:]))
                else:
                    gi.append((int(ev[k][1]), nums(ev[k][2:])))
                k += 1
            k += 1
            sig.append(len(want))
            if sorted(got) != want:
                x = sorted(set(got) ^ set(want))
                v.append(("nbhd-indices", "radius %r: %d indices returned, %d points are within; differing %s" % (a[2], len(got), len(want), x[:5])))
            if sorted(gp) != sorted(pts[i] for i in want):
                v.append(("nbhd-points", "radius %r: %d points returned, %d are within" % (a[2], len(gp), len(want))))
            if sorted(i for i, _ in gi) != want or any(x != pts[i] for i, x in gi if 0 <= i < len(pts)):
                v.append(("nbhd-pairs", "radius %r: %d pairs returned, %d points are within" % (a[2], len(gi), len(want))))
    return Verdict(v, "%d %d %s" % (len(pts), len(p), sig) if len(pts) > 1 else None, evals=len(m["ask"]), events=len(ev))
