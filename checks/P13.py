import bisect
from lib import gens, ref
from lib.core import Verdict, Case, mat, hx

TARGETS = ("probe",)
CHUNK = 15
RULE = ("DBSCAN over generated clouds (clusters with noise, chains, lattices with exact ties, duplicates, uniform; 1 to 300, some 1300 points; lines of 33000 points; hubs of hundreds of copies) with minPoints 0 to 50 or among the neighbour counts and scales "
        "between the distances, on the whole data or a prefix; labels are checked against the density-based definition (cores, connectivity, border points, noise, numbering). "
        "Non-trivial: at least one cluster and one other label; distinct: the label multiset and parameters")
MIN_DISTINCT = 60


def special(rng, n):
    k = rng.random()
    if k < 0.5:     # clusters of different density plus noise
        pts = []
        for _ in range(rng.randint(1, 4)):
            c = [rng.uniform(-15, 15), rng.uniform(-15, 15)]
            s = rng.choice([0.3, 0.8, 1.5])
            pts += [[c[0] + rng.gauss(0, s), c[1] + rng.gauss(0, s)] for _ in range(rng.randint(2, n // 3 + 2))]
        pts += [[rng.uniform(-25, 25), rng.uniform(-25, 25)] for _ in range(rng.randint(0, 10))]
    elif k < 0.8:   # a dense core with thin arms: border points
        pts = [[rng.gauss(0, 0.3), rng.gauss(0, 0.3)] for _ in range(rng.randint(4, 12))]
        for _ in range(rng.randint(2, 6)):
            x = rng.uniform(0.5, 4) * rng.choice([1, -1])
            pts.append([x, rng.uniform(-1, 1)])
        pts += [[p[0] + rng.choice([4, 6, 9]), p[1]] for p in pts]
    else:           # chain
        x = 0.0
        pts = []
        for _ in range(n):
            x += rng.choice([0.4, 0.5, 0.6, 0.9, 1.3])
            pts.append([x])
    rng.shuffle(pts)
    return pts


def gen(rng, tier):
    total = {"few": 333, "sample": 2000, "quick": 10000}.get(tier, 50000)
    for i in range(total):
        n = rng.choice([1, 2, 3, 4, 5]) if rng.random() < 0.1 else rng.choice([200, 257, 300]) if i % 40 == 0 else rng.randint(6, 160 if i % 8 == 0 else 60)
        if rng.random() < 0.6:
            pts = special(rng, n)
        else:
            pts = gens.cloud(rng, n, rng.choice([1, 2, 2, 3, 5]), gens.KINDS[i % len(gens.KINDS)])
        d = ref.dist_matrix(pts)
        lattice = all(x == int(x) for p in pts for x in p)
        if lattice and rng.random() < 0.6:
            eps = float(rng.choice([0, 1, 1, 2, 3]))
        else:
            every = sorted(x for k, r in enumerate(d) for x in r[:k])
            vals = [x for x in every if x > 0] or [1.0]
            eps = vals[int(len(vals) * rng.choice([0.02, 0.05, 0.1, 0.1, 0.2, 0.3, 0.6]) * 0.999)] * 1.0000371 + 1e-5
            k = bisect.bisect_left(every, eps - 1e-8 * (1 + eps))
            if k < len(every) and every[k] < eps + 1e-8 * (1 + eps) or abs(eps) < 1e-8 * (1 + eps):
                continue
        mp = rng.choice([1, 2, 3, 3, 4, 5, 8, 20, 25, 0, 50])
        if n > 60 and rng.random() < 0.5:
            # a threshold among the neighbour counts
            c = sorted(sum(x <= eps for x in r) for r in d)
            mp = c[int(len(c) * rng.choice([0.2, 0.5, 0.8]))] + rng.choice([0, 0, 1])
        size = 0 if rng.random() < 0.7 else rng.randint(1, len(pts))
        yield Case("c%d" % i, "probe", "dbscan %d %s %d %s" % (mp, hx(eps), size, mat(pts)), meta={"pts": pts, "mp": mp, "eps": eps, "size": size or len(pts)})


    # counts beyond 8 bits, many points
    for j in range({"few": 2, "sample": 2, "quick": 10}.get(tier, 60)):
        n = rng.choice([600, 800, 1030, 1300])
        pts = [[rng.gauss(0, 1), rng.gauss(0, 1)] for _ in range(n)] if j % 2 else gens.cloud(rng, n, 2, rng.choice(["clusters", "gridset", "uniform"]))
        d = ref.dist_matrix(pts)
        vals = sorted(d[0] + d[1] + d[2])
        eps = vals[int(len(vals) * [0.02, 0.2, 0.4, 0.55, 0.8][j % 5])] * 1.0000371 + 1e-5
        if any(abs(x - eps) < 1e-8 * (1 + eps) for r in d for x in r):
            continue
        c = sorted(sum(x <= eps for x in r) for r in d)
        mp = c[int(len(c) * rng.choice([0.1, 0.5, 0.9]))]
        yield Case("many%d" % j, "probe", "dbscan %d %s 0 %s" % (mp, hx(eps), mat(pts)), meta={"pts": pts, "mp": mp, "eps": eps, "size": len(pts), "heavy": 1})
    # a dense core whose fringe is reached through its long neighbour lists only, found from another core beside it
    for j in range({"few": 0, "sample": 1, "quick": 2}.get(tier, 6)):
        nd = 24
        unit = lambda a, s, e=1e-3: [s + rng.uniform(-e, e) if i == a else rng.uniform(-e, e) for i in range(nd)]
        beside = [unit(0, 1.0) for _ in range(500)]
        rest = [unit(0, 0.0, 0.0 if j % 2 == 0 else 1e-3) for _ in range(620)] + [unit(1 + i // 2, (-1.0) ** i) for i in range(2 * (nd - 1))]
        rng.shuffle(rest)
        yield Case("hub%d" % j, "probe", "dbscan %d %s 0 %s" % (800, hx(1.1), mat(beside + rest)), meta={"pts": beside + rest, "mp": 800, "eps": 1.1, "size": len(beside) + len(rest), "heavy": 1})


    # more points than 16 bits can number, on a line
    for j in range({"few": 0, "sample": 1, "quick": 2}.get(tier, 6)):
        n = rng.choice([33000, 34500]) if j < 4 else 66000
        x, pts = 0.0, []
        for _ in range(n):
            x += rng.choice([0.25, 0.5, 0.75, 1.0] + [1.25] * (j % 3))
            pts.append([x])
        rng.shuffle(pts)
        mp = rng.choice([2, 3, 4])
        yield Case("line%d" % j, "probe", "dbscan %d %s 0 %s" % (mp, hx(1.1), mat(pts)), meta={"pts": pts, "mp": mp, "eps": 1.1, "size": n, "heavy": 1})


def neighbours(pts, eps):
    """closed balls; on a line by a sorted search"""
    n = len(pts)
    if n < 2000:
        return [[j for j in range(n) if ref.dist(pts[i], pts[j]) <= eps] for i in range(n)]
    order = sorted(range(n), key=lambda i: pts[i][0])
    nb = [[i] for i in range(n)]
    for a, i in enumerate(order):
        for j in order[a + 1:a + 60]:
            if pts[j][0] - pts[i][0] > eps:
                break
            nb[i].append(j)
            nb[j].append(i)
    return nb


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    m = c.meta
    n, eps = m["size"], m["eps"]
    pts = m["pts"][:n]
    lab = [int(x) for x in o.one("labels").split()]
    if len(lab) != n:
        return Verdict([("count", "%d labels for %d points" % (len(lab), n))])
    nb = neighbours(pts, eps)
    core = [len(x) >= m["mp"] for x in nb]
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    for i in range(n):
        if core[i]:
            find(i)
            for j in nb[i]:
                if core[j]:
                    a, b = find(i), find(j)
                    par[max(a, b)] = min(a, b)
    num = {}
    for i in range(n):
        if core[i]:
            num.setdefault(find(i), len(num) + 1)
    v = []
    for i in range(n):
        if core[i]:
            if lab[i] != num[find(i)]:
                v.append(("core", "core point %d (%d neighbours) is labelled %d, its cluster is number %d" % (i, len(nb[i]), lab[i], num[find(i)])))
                break
        else:
            ok = set(num[find(j)] for j in nb[i] if core[j]) or {-1}
            if lab[i] not in ok:
                v.append(("border" if ok != {-1} else "noise", "point %d (%d neighbours, minPoints %d) is labelled %d, allowed: %s" % (i, len(nb[i]), m["mp"], lab[i], sorted(ok))))
                break
    s = sorted((x, lab.count(x)) for x in set(lab))
    return Verdict(v, "%d %.4g %s" % (m["mp"], eps, s) if len(s) > 1 else None, evals=n, events=len(o.events))
