import math
from lib import gens, ref
from lib.core import Verdict, Case, mat, vec, hx, fh

TARGETS = ("probe",)
CHUNK = 20
RULE = ("generated data, centroids and labels (empty clusters, unlabelled clusters, duplicates, 1 to 80 (some 600 or up to 66500) points, 1 to 130 clusters), radii and boundary lists given to the "
        "partitioning functions, and interval tables with partition-local indices given to mapPartitionIndexing; results are compared with the definitions. "
        "Non-trivial: at least two clusters or table entries; distinct: sizes of the partitions")
MIN_DISTINCT = 60


def gen(rng, tier):
    total = {"few": 333, "sample": 2000, "quick": 8000}.get(tier, 40000)
    for i in range(total):
        if i % 4 == 3:
            n = rng.randint(1, 60) if rng.random() < 0.9 else 400
            lab = rng.sample(range(200) if n <= 60 else range(2000), n)
            if rng.random() < 0.1:
                lab = [x + 2 ** 31 for x in lab]
            if rng.random() < 0.5:
                lab.sort()
            t = []
            for _ in range(rng.choice([0, 1, 2, 5, 20])):
                t.append((rng.randint(0, 3), rng.uniform(0, 3), rng.uniform(3, 6), sorted(rng.sample(range(n), rng.randint(0, min(n, rng.choice([9, 9, 9, 40, 250])))))))
            yield Case("m%d" % i, "probe", "mapidx %s %d %s" % (vec(lab), len(t), " ".join("%d %s %s %s" % (a, hx(b), hx(d), vec(e)) for a, b, d, e in t)),
                       meta={"what": "map", "lab": lab, "t": t})
            continue
        kind = gens.KINDS[i % len(gens.KINDS)]
        large = i % 40 == 0
        pts = gens.cloud(rng, rng.choice([257, 300, 600]) if large else rng.choice([1, 2, 3]) if rng.random() < 0.1 else rng.randint(4, 80), rng.choice([1, 2, 3, 3, 5, 9]), kind)
        k = rng.choice([33, 65, 130]) if large and rng.random() < 0.6 else rng.choice([1, 2, 2, 3, 5, 8, 12, 20])
        nd = len(pts[0])
        use = rng.sample(range(k), rng.randint(1, k))
        if rng.random() < 0.5:
            cen = [list(rng.choice(pts)) for _ in range(k)]
        else:
            cen = [[rng.uniform(-5, 10) for _ in range(nd)] for _ in range(k)]
        lab = [rng.choice(use) for _ in pts]
        ds = sorted(ref.dist(p, c) for p in pts for c in cen)
        r = rng.random()
        if r < 0.1:
            rad = 0.0
        elif r < 0.2:
            rad = ds[-1] * 2 + 1
        else:
            rad = rng.choice(ds) + rng.choice([1e-3, 0.05, -1e-3])
        lattice = all(x == int(x) for p in pts + cen for x in p)
        if lattice and rng.random() < 0.5:
            rad = float(rng.randint(0, 4))      # exactly on distances: closer means closer
        elif any(abs(x - rad) < 1e-9 * (1 + rad) and x != 0 for x in ds):
            rad += 1e-5
        bl = [sorted(rng.sample(range(k + 2), rng.randint(0, min(k + 2, 4)))) for _ in range(rng.randint(0, 4))]
        yield Case("c%d" % i, "probe", "part %s %s %s %s %d %s" % (mat(pts), mat(cen), vec(lab), hx(rad), len(bl), " ".join(vec(b) for b in bl)),
                   meta={"what": "part", "pts": pts, "cen": cen, "lab": lab, "rad": rad, "bl": bl})
    # more points than 10 or 16 bits can number
    for j in range({"few": 0, "sample": 0, "quick": 4}.get(tier, 12)):
        n = [1100, 5000, 33000, 66500][j % 4]
        pts = [[rng.uniform(0, 10)] for _ in range(n)]
        k = rng.choice([2, 3])
        cen = [[rng.uniform(0, 10)] for _ in range(k)]
        lab = [rng.randrange(k) for _ in pts]
        ds = sorted(abs(p[0] - q[0]) for p in pts for q in cen)
        a = rng.randrange(len(ds) // 3, len(ds) - 1)
        rad = (ds[a] + ds[a + 1]) / 2
        if ds[a + 1] - ds[a] < 1e-12:
            continue
        bl = [[0], [0, 1], []]
        yield Case("many%d" % j, "probe", "part %s %s %s %s %d %s" % (mat(pts), mat(cen), vec(lab), hx(rad), len(bl), " ".join(vec(b) for b in bl)),
                   meta={"what": "part", "pts": pts, "cen": cen, "lab": lab, "rad": rad, "bl": bl, "heavy": 1})


def groups(ev, name):
    """matrices logged one after the other under one tag"""
    out = []
    for e in ev:
        a = e.split(" ")
        if a[0] == name + ".rows":
            out.append([])
        elif a[0] == name:
            out[-1].append([fh(x) for x in a[1:] if x])
    return out


def ints(x):
    x = x.replace("%20", " ")
    return [] if x == "%" else [int(y) for y in x.split()]


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    m = c.meta
    v = []
    if m["what"] == "map":
        got = []
        for e in o.get("table"):
            a = e.split(" ")
            got.append((int(a[0]), fh(a[1]), fh(a[2]), [int(x) for x in a[3:] if x]))
        exp = [(a, b, d, sorted(m["lab"][x] for x in e)) for a, b, d, e in m["t"]]
        if len(got) != len(exp):
            v.append(("map-count", "%d entries became %d" % (len(exp), len(got))))
        for g, e in zip(got, exp):
            if g[:3] != e[:3]:
                v.append(("map-values", "entry %s became %s" % (e[:3], g[:3])))
            elif g[3] != e[3]:
                v.append(("map-boundary", "boundary %s maps to %s, result %s" % (m["t"][exp.index(e)][3], e[3], g[3])))
            if v:
                break
        return Verdict(v, "map %d %s" % (len(m["lab"]), [len(e[3]) for e in exp]) if len(exp) > 1 else None, evals=len(exp), events=len(o.events))
    pts, cen, lab, rad = m["pts"], m["cen"], m["lab"], m["rad"]
    k = len(cen)
    mr = fh(o.one("maxrad"))
    em = max(ref.dist(p, cen[l]) for p, l in zip(pts, lab))
    if not abs(mr - em) <= 1e-9 * (1 + em):
        v.append(("maxradius", "maximum radius %r, definition gives %r" % (mr, em)))
    p1l = [ints(x) for x in o.get("p1l")]
    p1d = groups(o.events, "p1d")
    e1 = [[i for i, l in enumerate(lab) if l == z] for z in range(k)]
    if p1l != e1:
        v.append(("label-index", "partition by label: indices %s, expected %s" % (p1l, e1)))
    if p1d != [[pts[i] for i in z] for z in e1]:
        v.append(("label-data", "partition by label: partition sizes %s, expected %s, or other points" % ([len(x) for x in p1d], [len(x) for x in e1])))
    e2 = [[i for i, p in enumerate(pts) if ref.dist(p, q) < rad] for q in cen]
    p2l = [ints(x) for x in o.get("p2l")]
    p2d = groups(o.events, "p2d")
    if p2l != e2:
        v.append(("radius-index", "partition by radius %r: sizes %s, expected %s, or other indices" % (rad, [len(x) for x in p2l], [len(x) for x in e2])))
    if p2d != [[pts[i] for i in z] for z in e2]:
        v.append(("radius-data", "partition by radius %r: sizes %s, expected %s, or other points" % (rad, [len(x) for x in p2d], [len(x) for x in e2])))
    p3 = groups(o.events, "p3d")
    e3 = [[p for p, l in zip(pts, lab) if l in b] for b in m["bl"]]
    if p3 != e3:
        v.append(("boundary", "partition by boundary lists %s: sizes %s, expected %s" % (m["bl"], [len(x) for x in p3], [len(x) for x in e3])))
    return Verdict(v, "%s %s %s" % ([len(x) for x in e1], [len(x) for x in e2], [len(x) for x in e3]) if k > 1 else None, evals=len(pts) * (2 + len(m["bl"])), events=len(o.events))
