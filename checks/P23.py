import math
from lib import gens, ref
from lib.core import Verdict, Case, conf, fh, dvec
from lib.barcheck import *
from checks.P03 import read_dump

TARGETS = ("probe",)
CHUNK = 3
RULE = ("streams of exactly 200 points (the window's size) of every kind (dense, sparse, lattice with ties, duplicates, one outlier) and shorter ones run through the sliding window; nearest "
        "neighbours, their distances, average, partition, keys, distance table and complex are compared with direct computation. Then points the published rule rejects (equal to a member, "
        "close to a dense window, within four times the average distance) are put to it, 5 to 40 in a row, and window and statistics have to stay as they are. "
        "Non-trivial: the window filled; distinct: average nearest-neighbour distance and number of simplices")
MIN_DISTINCT = 15
WIN = 200


def nn(pts, p, skip=None):
    return min(math.dist(p, q) for i, q in enumerate(pts) if i != skip)


def gen(rng, tier):
    total = {"few": 26, "sample": 160, "quick": 640}.get(tier, 3200)
    for i in range(total):
        n = WIN if i % 9 else rng.choice([1, 2, 100, 150, 199])
        dims = rng.choice([1, 2, 2, 3, 4])
        kind = rng.choice(["uniform", "gauss", "clusters", "gridset", "dups", "dense", "dense", "line", "mixedscale", "identical", "outlier"])
        if kind == "dense":
            pts = [[rng.uniform(0, 1) for _ in range(dims)] for _ in range(n)]
        elif kind == "identical":
            pts = [[1.5] * dims for _ in range(n)]
        elif kind == "outlier":
            pts = [[rng.uniform(0, 30) for _ in range(dims)] for _ in range(n)]
            pts[rng.randrange(n)] = [500.0] * dims
        elif kind == "gridset":
            side = int(n ** (1 / dims)) + 2
            a = [[float(rng.randrange(side)) for _ in range(dims)] for _ in range(n)]
            pts = a
        else:
            pts = gens.cloud(rng, n, dims, kind)[:n]
        d = ref.dist_matrix(pts)
        dim = rng.choice([1, 1, 2])
        w = sorted(x for r in d for x in r if x > 0)
        eps = w[int((len(w) - 1) * rng.choice([0.0, 0.005, 0.02 if dim == 2 else 0.3]))] * 1.0000001 if w else 1.0
        if kind in ("dups", "identical"):
            dim = 1
        if ref.near_eps(d, eps):
            continue
        ev = []
        if n == WIN:
            near = [min(d[a][b] for b in range(n) if b != a) for a in range(n)]
            avg = sum(near) / n
            for _ in range(rng.choice([5, 20, 40])):
                for _ in range(50):
                    q = list(rng.choice(pts))
                    r = rng.random()
                    if r > 0.15:
                        s = rng.choice([0.3, 1.0, 3.5]) * max(avg, 0.01) if r > 0.5 or avg > 0.25 else rng.uniform(0, 0.95)
                        u = [rng.gauss(0, 1) for _ in q]
                        l = math.sqrt(sum(x * x for x in u)) or 1.0
                        q = [a + s * x / l for a, x in zip(q, u)]
                    x = nn(pts, q)
                    if x == 0 or (avg <= 0.25 * (1 - 1e-9) and x <= 1 - 1e-9) or (avg > 0 and x / avg <= 4 * (1 - 1e-9)):
                        if x == 0 and q not in pts:
                            continue
                        ev.append(q)
                        break
        cf = conf({"pipeline": "slidingwindow", "complexType": "simplexTree", "epsilon": "%.17g" % eps, "dimensions": dim, "inputFile": "{d}/w%d.csv" % i, "outputFile": "none", "debug": "0"})
        yield Case("c%d" % i, "probe", "window %s %d %s" % (cf, len(ev), " ".join(dvec(q) for q in ev)), files={"w%d.csv" % i: gens.csv(pts)},
                   meta={"pts": pts, "eps": eps, "dim": dim, "ev": len(ev), "kind": kind})


def state(ev):
    r = {}
    for e in ev:
        a = e.split(" ")
        if a[0] in ("keys", "parts", "nnidx"):
            r[a[0]] = [int(x) for x in a[1:] if x]
        elif a[0] == "nnd":
            r[a[0]] = [fh(x) for x in a[1:] if x]
        elif a[0] == "avg":
            r.setdefault("avg", {})[int(a[1])] = fh(a[2])
        elif a[0] in ("num", "maxkey"):
            r.setdefault(a[0], {})[int(a[1])] = int(a[2])
    return r


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "%d points (%s): ended with %s\n%s" % (len(c.meta["pts"]), c.meta["kind"], o.key, o.stderr[:600]))])
    m = c.meta
    pts, n = m["pts"], len(m["pts"])
    v = []
    if o.one("cfg") != "1":
        return Verdict([("config", "the sliding window could not be configured")])
    # split the log at the evaluations
    segs = [[]]
    for e in o.events:
        if e.startswith("eval "):
            segs.append([])
        segs[-1].append(e)
    s = state(segs[0])
    win = o.matrix("win")
    if n < WIN:
        if win:
            v.append(("early", "%d points of %d: a window of %d points is handed on" % (n, WIN, len(win))))
        if any(s.get(k) for k in ("nnidx", "nnd", "avg", "num", "maxkey")):
            v.append(("early-stats", "statistics before the window filled: %s" % str(s)[:200]))
        return Verdict(v, None, evals=2, events=len(o.events))
    d = ref.dist_matrix(pts)
    scale = 1 + max(map(max, d))
    tol = 1e-9 * scale
    if win != pts:
        v.append(("window", "the window is not the first %d points in order" % WIN))
    near = [min(d[i][j] for j in range(n) if j != i) for i in range(n)]
    if s.get("keys") != list(range(n)):
        v.append(("keys", "keys are not 0..%d: %s" % (n - 1, str(s.get("keys"))[:120])))
    if s.get("parts") != [0] * n or s.get("num") != {0: n}:
        v.append(("partition", "partitions %s with sizes %s, expected one of %d points" % (sorted(set(s.get("parts", []))), s.get("num"), n)))
    if s.get("maxkey") != {0: n - 1}:
        v.append(("maxkey", "newest key per partition %s, expected 0: %d" % (s.get("maxkey"), n - 1)))
    nnd, nni = s.get("nnd", []), s.get("nnidx", [])
    if len(nnd) != n or len(nni) != n:
        v.append(("nn-count", "%d nearest-neighbour distances and %d indices for %d points" % (len(nnd), len(nni), n)))
    else:
        bad = [i for i in range(n) if abs(nnd[i] - near[i]) > tol]
        if bad:
            v.append(("nn-dist", "nearest-neighbour distance of point %d is %r, exactly %r (%d wrong)" % (bad[0], nnd[bad[0]], near[bad[0]], len(bad))))
        bad = [i for i in range(n) if not 0 <= nni[i] < n or nni[i] == i or abs(d[i][nni[i]] - near[i]) > tol]
        if bad:
            v.append(("nn-index", "nearest neighbour of point %d is given as %d, which is not nearest (%d wrong)" % (bad[0], nni[bad[0]], len(bad))))
    avg = sum(near) / n
    if set(s.get("avg", {})) != {0} or abs(s["avg"][0] - avg) > tol:
        v.append(("average", "average nearest-neighbour distance %s, exactly %r" % (s.get("avg"), avg)))
    dm = o.matrix("dist")
    if len(dm) != n or any(len(r) != n for r in dm) or any(abs(dm[i][j] - d[i][j]) > tol for i in range(n) for j in range(i + 1, n)):
        v.append(("distances", "the distance table is not that of the window's points"))
    lv = ref.rips(d, m["eps"], m["dim"])
    lev, vc, sc, _ = read_dump(segs[0])[0]
    if [dict((t, 0) for _, t in l).keys() for l in lev if l] != [x.keys() for x in lv] or (vc, sc) != (n, sum(map(len, lv))):
        v.append(("complex", "complex with %d vertices, %d simplices (%s), expected %d and %s" % (vc, sc, [len(l) for l in lev], n, [len(x) for x in lv])))
    if len(segs) - 1 != m["ev"] and not v:
        return Verdict([("protocol", "%d of %d evaluations" % (len(segs) - 1, m["ev"]))])
    for k, g in enumerate(segs[1:]):
        if g[0] != "eval 0":
            v.append(("accepted", "point %d, which the rule rejects (average %g), is accepted" % (k, avg)))
            break
        if "winsame 1" not in g or state(g) != s:
            v.append(("touched", "rejecting point %d changed the window or its statistics" % k))
            break
    return Verdict(v, "%.6g %s" % (avg, [len(x) for x in lv]), evals=3 * n + 2 * m["ev"], events=len(o.events))
