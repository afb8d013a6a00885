import math
from lib import gens, ref
from lib.core import Verdict, Case, mat, conf, dvec, hx, fh

TARGETS = ("probe",)
CHUNK = 2
RULE = ("micro-clusters fed generated timed points (equal, dense and sparse times, lambda 0 to 2, tight, spread and far-off points) compared after every insertion with directly summed "
        "decayed statistics; the denStream preprocessor run on generated streams (1 to 1900, some 5500 points, 1 to 9 coordinates: stationary, drifting, emerging and dying clusters, noise) compared with a separate "
        "model of the algorithm. Streams in which a decision of the model is within rounding of its threshold give no verdict. Non-trivial: at least two insertions / a non-empty result; "
        "distinct: final statistics / number of clusters, promotions and prunings")
MIN_DISTINCT = 60


def stream(rng, n, kind):
    pts = []
    cs = [[rng.uniform(-30, 30), rng.uniform(-30, 30)] for _ in range(rng.randint(1, 5))]
    new = [[rng.uniform(40, 80), rng.uniform(-30, 30)] for _ in range(2)]
    s = rng.choice([0.3, 0.6, 1.0])
    for i in range(n):
        if kind == "noise" or rng.random() < 0.03:
            pts.append([rng.uniform(-100, 100), rng.uniform(-100, 100)])
            continue
        if kind == "drift":
            c = list(cs[i % len(cs)])
            if i >= 1000:
                c[0] += (i - 1000) * 0.02
        elif kind == "emerge" and i >= 1000:
            c = rng.choice(new) if rng.random() < 0.6 else rng.choice(cs)
        elif kind == "die" and i >= 1000:
            c = cs[0]
        elif kind == "rare" and i >= 1000:
            c = rng.choice([[200.0 + 50 * k, 0.0] for k in range(8)])
        elif kind == "burst" and i >= 1000:
            c = [200.0 + 40 * ((i - 1000) // 25), 0.0]
        elif kind == "gone" and i >= 1000:
            c = [1000.0 + 50 * i, 0.0]
        elif kind == "moved" and i >= 1000:
            c = new[0]
        else:
            c = rng.choice(cs)
        pts.append([c[0] + rng.gauss(0, s), c[1] + rng.gauss(0, s)])
    return pts


def gen(rng, tier):
    nm, nd = (1200, 110) if tier != "thorough" else (2000, 600)
    for i in range(nm):
        dim = rng.choice([1, 2, 3])
        lam = rng.choice([0.0, 0.25, 0.25, 0.1, 0.5, 1.0, 2.0])
        t = rng.choice([0, 0, 5, 50])
        t0 = t
        off = rng.choice([0, 0, 0, 10, 1000])
        sp = rng.choice([1.0, 0.01, 10.0, 0.0])
        ins = []
        for _ in range(rng.randint(1, 25) if i % 300 else rng.randint(1100, 1800)):
            t += rng.choice([0, 0, 0, 1, 1, 2, 7, 40])
            ins.append((t, [off + rng.gauss(0, sp) for _ in range(dim)], t + rng.choice([0, 0, 1, 5])))
        yield Case("m%d" % i, "probe", "micro %d %s %d %d %s" % (t0, hx(lam), dim, len(ins), " ".join("%d %s %d" % (a, dvec(p), q) for a, p, q in ins)),
                   meta={"what": "micro", "lam": lam, "t0": t0, "ins": ins})
    for i in range(nd):
        r = i % 6
        n = rng.randint(1, 60) if r == 0 else rng.randint(61, 999) if r == 1 else rng.choice([1000, 1001, 1019, 1020]) if r == 2 and rng.random() < 0.5 else rng.randint(1021, 1900)
        kind = rng.choice(["stay", "drift", "emerge", "emerge", "die", "rare", "burst", "burst", "gone", "moved"]) if rng.random() < 0.9 else "noise"
        lam = rng.choice([0.25, 0.25, 0.1, 0.5, 1.0, 2.0, 3.0])
        if i % 22 == 21:
            n = rng.randint(2500, 5500)
        if i % 37 == 17:
            # clusters that hardly forget: weights in the thousands
            n, lam, kind = rng.randint(3000, 5000), rng.choice([0.0002, 0.001, 0.002]), rng.choice(["stay", "drift", "die", "die", "emerge"])
        pts = stream(rng, n, kind)
        if i % 11 == 4:
            # many far places visited now and then, while pruning is rare: many outlier clusters live at once
            lam = rng.choice([0.005, 0.01, 0.02, 0.04])
            q = rng.choice([30, 60, 120, 200])
            pts = pts[:1020]
            for _ in range(rng.randint(300, 1500)):
                j = rng.randrange(q)
                pts.append([500.0 + 60 * j + rng.gauss(0, 0.3), rng.gauss(0, 0.3)])
        dim = rng.choice([2, 2, 2, 1, 3, 4, 9])
        if dim != 2:
            s = rng.choice([0.1, 0.3])
            pts = [(p + [rng.gauss(0, s) for _ in range(dim - 2)])[:dim] for p in pts]
        eps = rng.choice([0.8, 1.5, 3.0, 5.0]) * 1.00001
        name = rng.choice(["denStream", "denstream", "DenStream"])
        yield Case("d%d" % i, "probe", "pre %s 1 %s" % (conf({"preprocessor": name, "epsilon": "%.17g" % eps, "lambda": repr(lam), "outputFile": "none"}), mat(pts)),
                   meta={"what": "den", "pts": pts, "eps": eps, "lam": lam})


class Unsure(Exception):
    pass


def lt(a, b, what):
    """a < b, unless rounding could decide it"""
    if a != b and abs(a - b) < 1e-9 * (1 + abs(b)):
        raise Unsure(what)
    return a < b


class MC:
    def __init__(self, t0, dim, lam):
        self.t0, self.lam, self.w, self.t = t0, lam, 0.0, 0
        self.s = [0.0] * dim
        self.q = [0.0] * dim
        self.org = None

    def decay(self, t):
        return 2.0 ** (-self.lam * (t - self.t))

    def add(self, p, t):
        if self.org is None:
            self.org = list(p)
        f = self.decay(t)
        self.w = self.w * f + 1
        # coordinates relative to the first point: no cancellation in the model
        self.s = [a * f + (x - o) for a, x, o in zip(self.s, p, self.org)]
        self.q = [a * f + (x - o) ** 2 for a, x, o in zip(self.q, p, self.org)]
        self.t = t

    def copy(self):
        m = MC(self.t0, len(self.s), self.lam)
        m.w, m.t, m.s, m.q, m.org = self.w, self.t, list(self.s), list(self.q), self.org
        return m

    def center(self):
        return [a / self.w + o for a, o in zip(self.s, self.org)] if self.w else [0.0] * len(self.s)

    def r2(self):
        return max(0.0, sum(b / self.w - (a / self.w) ** 2 for a, b in zip(self.s, self.q))) if self.w else 0.0

    def merged_radius(self, p, t):
        m = self.copy()
        m.add(p, t)
        return math.sqrt(m.r2())

    def weight(self, t):
        return self.w * self.decay(t)


def dbscan(pts, mp, eps):
    n = len(pts)
    nb = [[] for _ in range(n)]
    order = sorted(range(n), key=lambda i: pts[i][0])
    for a in range(n):
        i = order[a]
        b = a
        while b < n and pts[order[b]][0] - pts[i][0] <= eps * 1.001:
            j = order[b]
            d = math.dist(pts[i], pts[j])
            if abs(d - eps) < 1e-9 * (1 + eps):
                raise Unsure("distance near epsilon")
            if d <= eps:
                nb[i].append(j)
                if i != j:
                    nb[j].append(i)
            b += 1
    lab = [-1] * n
    k = 0
    core = [len(x) >= mp for x in nb]
    for i in range(n):
        if core[i] and lab[i] == -1:
            k += 1
            todo = [i]
            lab[i] = k
            while todo:
                x = todo.pop()
                for y in nb[x]:
                    if lab[y] == -1:
                        lab[y] = k
                        if core[y]:
                            todo.append(y)
    return lab, k


def nearest(cl, p):
    ds = [math.dist(c.center(), p) for c in cl]
    k = min(range(len(ds)), key=lambda i: ds[i])
    for i, x in enumerate(ds):
        if i != k and abs(x - ds[k]) < 1e-9 * (1 + x):
            raise Unsure("two clusters equally near")
    return cl[k]


def denstream(pts, eps, lam):
    mu, beta, speed = 10, 0.2, 20
    tp = math.ceil(math.log(beta * mu / (beta * mu - 1)) / lam)
    n0 = min(1000, len(pts))
    lab, k = dbscan(pts[:n0], 20, eps)
    t, c = divmod(n0, speed)
    # nothing but noise: the algorithm here starts from one empty cluster
    P = [MC(t, len(pts[0]), lam) for _ in range(max(1, k))]
    O = []
    stat = {"promoted": 0, "prunedP": 0, "prunedO": 0, "newO": 0, "init": k}
    for p, l in zip(pts, lab):
        if l > 0:
            P[l - 1].add(p, t)
    for p in pts[n0:]:
        c += 1
        if c == speed:
            c = 0
            t += 1
        done = False
        if P:
            m = nearest(P, p)
            if not lt(eps, m.merged_radius(p, t), "radius near epsilon"):
                m.add(p, t)
                done = True
        if not done and O:
            m = nearest(O, p)
            if not lt(eps, m.merged_radius(p, t), "radius near epsilon"):
                m.add(p, t)
                done = True
                if lt(beta * mu, m.weight(t), "weight near the threshold"):
                    O.remove(m)
                    P.append(m)
                    stat["promoted"] += 1
        if not done:
            m = MC(t, len(p), lam)
            m.add(p, t)
            O.append(m)
            stat["newO"] += 1
        if t % tp == 0 and c == 0:
            keep = [m for m in P if not lt(m.weight(t), beta * mu, "weight near the threshold")]
            stat["prunedP"] += len(P) - len(keep)
            P = keep
            keep = []
            for m in O:
                xi = (2.0 ** (-lam * (t - m.t0 + tp)) - 1) / (2.0 ** (-tp * lam) - 1)
                if not lt(m.weight(t), xi, "weight near the lower limit"):
                    keep.append(m)
            stat["prunedO"] += len(O) - len(keep)
            O = keep
    return [m.center() for m in P], stat


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    m = c.meta
    v = []
    if m["what"] == "micro":
        mc = MC(m["t0"], len(m["ins"][0][1]), m["lam"])
        mg, st = o.get("merge"), o.get("mc")
        if len(mg) != len(m["ins"]) or len(st) != len(m["ins"]):
            return Verdict([("protocol", "events missing")])
        big = 1 + max(abs(x) for _, p, _ in m["ins"] for x in p)
        tr2 = 1e-12 * big * big * len(m["ins"][0][1])
        for i, (t, p, q) in enumerate(m["ins"]):
            er = mc.merged_radius(p, t)
            r = fh(mg[i])
            if not abs(r * r - er * er) <= tr2 + 1e-9 * er * er:
                v.append(("merge-radius", "insertion %d (lambda %g): predicted radius %r, definition gives %r" % (i, m["lam"], r, er)))
                break
            mc.add(p, t)
            a = st[i].split(" ")
            cr, w, rad, cen = int(a[0]), fh(a[1]), fh(a[2]), [fh(x) for x in a[3:]]
            if cr != m["t0"]:
                v.append(("creation", "creation time %d became %d" % (m["t0"], cr)))
            if not abs(w - mc.weight(q)) <= 1e-9 * (1 + mc.weight(q)):
                v.append(("weight", "after %d insertions at time %d, asked at %d: weight %r, definition gives %r" % (i + 1, t, q, w, mc.weight(q))))
            if not abs(rad * rad - mc.r2()) <= tr2 + 1e-9 * mc.r2():
                v.append(("radius", "after %d insertions: radius %r, definition gives %r" % (i + 1, rad, math.sqrt(mc.r2()))))
            if len(cen) != len(p) or not all(abs(x - y) <= 1e-9 * big for x, y in zip(cen, mc.center())):
                v.append(("center", "after %d insertions: centre %s, definition gives %s" % (i + 1, cen, mc.center())))
            if v:
                break
        return Verdict(v, "m %.6g %.6g" % (mc.w, mc.r2()) if len(m["ins"]) > 1 else None, evals=4 * len(m["ins"]), events=len(o.events))
    if (o.one("pre") or "").split() != ["made", "1"]:
        return Verdict([("config", "preprocessor not available or not configured")])
    reps = o.matrix("reps")
    if o.one("full.same") != "1":
        v.append(("full", "the full data were changed"))
    if any(not math.isfinite(x) for r in reps for x in r):
        v.append(("finite", "a centre is not finite"))
    try:
        exp, stat = denstream(m["pts"], m["eps"], m["lam"])
    except Unsure as e:
        return Verdict(v, None, inconclusive=str(e))
    big = 1 + max(abs(x) for p in m["pts"] for x in p)
    left = list(reps)
    for e in exp:
        k = next((i for i, r in enumerate(left) if len(r) == len(e) and math.dist(r, e) <= 1e-7 * big), None)
        if k is None:
            v.append(("centres", "%d points, lambda %g, epsilon %g: %d centres returned, the algorithm yields %d; no counterpart for %s (model: %s)" % (
                len(m["pts"]), m["lam"], m["eps"], len(reps), len(exp), e, stat)))
            break
        left.pop(k)
    else:
        if left:
            v.append(("centres", "%d points: %d centres returned, the algorithm yields %d; extra %s (model: %s)" % (len(m["pts"]), len(reps), len(exp), left[0], stat)))
    return Verdict(v, "d %d %s" % (len(exp), sorted(stat.items())), evals=len(m["pts"]), events=len(o.events))
