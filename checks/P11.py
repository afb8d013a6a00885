import math
from lib import gens, ref
from lib.core import Verdict, Case, mat, conf

TARGETS = ("probe",)
CHUNK = 15
RULE = ("generated clouds (16 shapes, 1 to 80 (some 400 or up to 6000, on a line until they stop moving) points, 1 to 17 coordinates, duplicates, offsets up to 1e4) clustered by the kmeans++ preprocessor under each of its names with 1 to 25 clusters "
        "(also more than points or distinct points) and 1 to 250 iterations; representatives and labels are checked against the definition. The code seeds itself from the "
        "system, so every run is another initialisation. Non-trivial: at least two representatives; distinct: labels")
MIN_DISTINCT = 60


def gen(rng, tier):
    total = {"few": 333, "sample": 2000, "quick": 12000}.get(tier, 60000)
    for i in range(total):
        kind = gens.KINDS[i % len(gens.KINDS)]
        n = rng.choice([1, 2, 3, 4]) if rng.random() < 0.15 else rng.randint(5, 80)
        if i % 40 == 0:
            n = rng.choice([129, 257, 300, 400])
        pts = gens.cloud(rng, n, rng.choice([1, 2, 2, 3, 6, 17]), kind)
        if rng.random() < 0.2:
            off = rng.choice([1e4, -1e4, 300])
            pts = [[x + off for x in p] for p in pts]
        if i % 9 == 5:
            f = rng.choice([1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 1e6, 1e12])
            pts = [[x * f for x in p] for p in pts]
        k = rng.choice([1, 2, 2, 3, 4, 5, 8, 12, 20, 25])
        if i % 40 == 0:
            k = rng.choice([3, 10, 40, 70, 130])
        if rng.random() < 0.1 and len(pts) < 100:
            k = len(pts) + rng.choice([-1, 0, 1]) or 1
        it = rng.choice([250, 250, 250, 200, 1, 2, 3, 5])
        name = rng.choice(["kmeans++", "kmeansplusplus", "kmeans"])
        yield Case("c%d" % i, "probe", "pre %s %d %s" % (conf({"preprocessor": name, "clusters": k, "iterations": it, "outputFile": "none"}), rng.randint(0, 10 ** 6), mat(pts)),
                   meta={"pts": pts, "k": k, "it": it})
    # thousands of points; few different ones, the others behind them
    for j in range({"few": 1, "sample": 3, "quick": 15}.get(tier, 80)):
        n = [1100, 2500, 5000][j % 3]
        if j % 2:
            few = [[float(rng.randint(-9, 9)), rng.uniform(-9, 9)] for _ in range(rng.randint(1, 4))]
            pts = [rng.choice(few) for _ in range(n)] + [[rng.uniform(20, 90), rng.uniform(-9, 9)] for _ in range(rng.randint(0, 6))]
            k = rng.choice([len(set(map(tuple, pts))), 3, 12])
        else:
            pts = gens.cloud(rng, n, 2, rng.choice(["clusters", "uniform", "gridset"]))
            k = rng.choice([2, 7, 20])
        it = rng.choice([3000, 3])
        yield Case("many%d" % j, "probe", "pre %s %d %s" % (conf({"preprocessor": "kmeans++", "clusters": k, "iterations": it, "outputFile": "none"}), rng.randint(0, 10 ** 6), mat(pts)),
                   meta={"pts": pts, "k": k, "it": it, "heavy": 1})
    # clusters that travel slowly: hundreds of iterations until nothing moves
    for j in range({"few": 0, "sample": 0, "quick": 2}.get(tier, 6)):
        pts = [[k * 0.01 + rng.uniform(0, 1e-4)] for k in range(rng.choice([5000, 6000]))]
        if j % 2:
            rng.shuffle(pts)
        yield Case("slow%d" % j, "probe", "pre %s %d %s" % (conf({"preprocessor": "kmeans++", "clusters": 25, "iterations": 5000, "outputFile": "none"}), rng.randint(0, 10 ** 6), mat(pts)),
                   meta={"pts": pts, "k": 25, "it": 5000, "heavy": 1})


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    m = c.meta
    pts = m["pts"]
    reps = o.matrix("reps")
    lab = [int(x) for x in (o.one("labels") or "").split()]
    v = []
    if (o.one("pre") or "").split() != ["made", "1"]:
        return Verdict([("config", "preprocessor not available or not configured: " + str(o.one("pre")))])
    distinct = len(set(map(tuple, pts)))
    scale = max(abs(x) for p in pts for x in p)
    tol = 1e-9 * scale
    where = "%d points, %d clusters, %d iterations" % (len(pts), m["k"], m["it"])
    if len(lab) != len(pts):
        v.append(("labels", "%d labels for %d points (%s)" % (len(lab), len(pts), where)))
    if len(reps) != min(m["k"], distinct):
        v.append(("count", "%d representatives, expected %d (%s)" % (len(reps), min(m["k"], distinct), where)))
    if any(len(r) != len(pts[0]) for r in reps):
        v.append(("shape", "a representative has the wrong number of coordinates (%s)" % where))
    elif not all(math.isfinite(x) for r in reps for x in r):
        v.append(("finite", "a representative has a coordinate that is no finite number (%s)" % where))
    if any(l >= len(reps) for l in lab):
        v.append(("label-range", "label %d with %d representatives (%s)" % (max(lab), len(reps), where)))
    if not v:
        for k, r in enumerate(reps):
            mine = [p for p, l in zip(pts, lab) if l == k]
            if mine:
                mean = [sum(p[j] for p in mine) / len(mine) for j in range(len(r))]
                if ref.dist(mean, r) > tol:
                    v.append(("mean", "representative %d is %s, the mean of its %d points is %s (%s)" % (k, r, len(mine), mean, where)))
                    break
        if m["it"] >= 200:
            for p, l in zip(pts, lab):
                best = min(ref.dist(p, r) for r in reps)
                if ref.dist(p, reps[l]) > best + tol:
                    v.append(("nearest", "a point %.9g away from its representative has another at %.9g (%s)" % (ref.dist(p, reps[l]), best, where)))
                    break
    if o.one("full.same") != "1":
        v.append(("full", "the full data were changed"))
    sig = str(sorted(map(lab.count, set(lab)))) + str(hash(str(pts))) if len(reps) > 1 else None
    return Verdict(v, sig, evals=len(pts), events=len(o.events))
