import collections
from lib import gens, ref
from lib.core import Verdict, Case, mat, conf, esc, hx, fh, vec
from lib.barcheck import TYPES

TARGETS = ("probe",)
CHUNK = 10
RULE = ("point clouds run through the distMatrix.neighGraph.rips stages, and arbitrary weight tables (non-metric, with ties and zeros) handed to the "
        "complex directly (constructed from a settings map or from scale and dimension), for every complex type, dimension 1 to 4 and scales below, between, on and above the weights; the complete content returned "
        "by getAllEdges, the counts after every insertion and (simplexArrayList) membership and dimension queries are compared with an independently "
        "enumerated Vietoris-Rips complex. Non-trivial: at least one edge; distinct: type, dimension and number of simplices per dimension")
MIN_DISTINCT = 60


def table(rng, n, kind):
    d = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if kind == "int":
                w = float(rng.randint(0, 4))
            elif kind == "real":
                w = rng.uniform(0, 5)
            elif kind == "close":     # differ far behind the sixth digit
                w = 1.0 + rng.randint(0, 30) * rng.choice([1e-9, 1e-12])
            elif kind == "huge":
                w = float(2 ** rng.choice([0, 24, 31, 33, 53])) + rng.randint(0, 3)
            elif kind == "small":
                w = rng.choice([1e-12, 1e-7, 1e-3, 0.5]) * rng.randint(1, 3)
            elif kind == "bits":
                w = rng.choice([1.0, 3.0])
            else:
                w = float(1 + ((i * 7 + j * 3) % 5))
            d[i][j] = w
    return d


def up(d):
    """full symmetric copy of an upper triangle"""
    n = len(d)
    return [[d[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]


def gen(rng, tier):
    total = {"few": 366, "sample": 2200, "quick": 8800}.get(tier, 44000)
    for i in range(total):
        ctype = rng.choice(TYPES)
        dim = rng.choice([1, 2, 2, 3, 3, 4, rng.choice([4, 5, 6, 7])])
        cap = {1: 24, 2: 16, 3: 12, 4: 10}.get(dim, 9)
        if ctype == "simplexArrayList":
            cap = {1: 14, 2: 10, 3: 9, 4: 8}.get(dim, 8)
        n = rng.choice([1, 2, 3]) if rng.random() < 0.12 else rng.randint(4, cap)
        if i % 2:
            kind = gens.KINDS[(i // 2) % len(gens.KINDS)]
            pts = gens.cloud(rng, n, rng.choice([1, 2, 3]), kind)[:cap]
            d = ref.dist_matrix(pts)
            eps = gens.pick_eps(rng, d)
            if ref.near_eps(d, eps):
                continue
            yield Case("p%d" % i, "probe", "pipeline " + conf({"epsilon": "%.17g" % eps, "dimensions": dim, "complexType": ctype, "debug": 0,
                                                               "pipeline": "distMatrix.neighGraph.rips", "outputFile": "none"}) + " " + mat(pts),
                       meta={"d": d, "eps": eps, "dim": dim, "ctype": ctype, "points": True})
        else:
            d = table(rng, n, rng.choice(["int", "real", "bits", "patt", "close", "huge", "small"]))
            f = up(d)
            if n > 1:
                vals = sorted(set(f[a][b] for a in range(n) for b in range(a)))
                eps = rng.choice([rng.choice(vals), rng.choice(vals) + 0.25, vals[-1] + 1.0])
                if eps <= 0:
                    eps = 0.5
            else:
                eps = 1.0
            q = []
            asked = []
            if ctype == "simplexArrayList":
                for _ in range(rng.randint(0, 12)):
                    k = rng.randint(1, min(n, dim + 1))
                    s = sorted(rng.sample(range(n), k))
                    q.append("findv " + vec(s))
                    asked.append(("f", s))
                for _ in range(rng.randint(0, 4)):
                    k = rng.randint(1, dim + 1)
                    e = rng.choice([eps, eps / 2, eps + 1])
                    q.append("dimedges %d %s" % (k, hx(e)))
                    asked.append(("d", k, e))
            q.append("again")
            sym = rng.random() < 0.5
            between = [k for k in range(n) if rng.random() < 0.3] if rng.random() < 0.4 else []
            yield Case("t%d" % i, "probe", "complex %s %s %d %d %s %s %d %s" % (esc(("@" if i % 8 == 2 else "") + ctype), hx(eps), dim, dim, mat(f if sym else d), vec(between), len(q), " ".join(q)),
                       meta={"d": f, "eps": eps, "dim": dim, "ctype": ctype, "asked": asked, "points": False})
    # queries of larger lists
    for j in range({"few": 2, "sample": 10, "quick": 40}.get(tier, 200)):
        n = rng.choice([20, 26, 32])
        dim = rng.choice([1, 1, 2, 2, 3])
        d = table(rng, n, rng.choice(["int", "real", "bits", "patt"]))
        f = up(d)
        vals = sorted(f[a][b] for a in range(n) for b in range(a))
        eps = vals[int(len(vals) * {1: 0.9, 2: 0.5, 3: 0.25}[dim])] or 0.5
        lv = ref.rips(f, eps, dim, True)
        if sum(map(len, lv)) > 1500:
            continue
        q, asked = [], []
        for _ in range(60):
            k = rng.randint(1, dim + 1)
            s = sorted(rng.sample(range(n), k)) if rng.random() < 0.4 or k > len(lv) else sorted(rng.choice(sorted(lv[k - 1]))) if lv[k - 1] else [0]
            q.append("findv " + vec(s))
            asked.append(("f", s))
        for k in range(1, dim + 2):
            e = rng.choice([eps, eps / 2, eps + 1])
            q.append("dimedges %d %s" % (k, hx(e)))
            asked.append(("d", k, e))
        q.append("again")
        yield Case("query%d" % j, "probe", "complex %s %s %d %d %s %s %d %s" % (esc("simplexArrayList"), hx(eps), dim, dim, mat(f), vec([]), len(q), " ".join(q)),
                   meta={"d": f, "eps": eps, "dim": dim, "ctype": "simplexArrayList", "asked": asked, "points": False})
    # many points, few neighbours
    for j in range({"few": 4, "sample": 24, "quick": 96}.get(tier, 384)):
        n = rng.choice([50, 64, 70, 128, 130, 200, 257, 300])
        ctype = rng.choice(TYPES)
        dim = rng.choice([2, 3, 4])
        pts = gens.cloud(rng, n, rng.choice([2, 3]), rng.choice(["uniform", "gauss", "clusters", "gridset", "jitter", "chains", "multiplicity"]))
        d = ref.dist_matrix(pts)
        v = sorted(x for i, r in enumerate(d) for x in r[:i])
        eps = v[min(len(v) - 1, n * rng.choice([2, 3, 4]))]
        if eps != int(eps):
            # never exactly on a computed distance: its last bit is the code's own business
            above = next((x for x in v if x > eps * (1 + 1e-6)), eps * 1.1)
            eps = (eps + above) / 2
        if rng.random() < 0.5 and ctype == "simplexTree":
            ctype = "indSimplexTree"
        if eps <= 0 or ref.near_eps(d, eps):
            continue
        sz = sum(map(len, ref.rips(d, eps, dim, True)))
        if sz > (2500 if ctype == "simplexArrayList" else 12000):
            continue
        yield Case("sparse%d" % j, "probe", "pipeline " + conf({"epsilon": "%.17g" % eps, "dimensions": dim, "complexType": ctype, "debug": 0,
                                                                "pipeline": "distMatrix.neighGraph.rips", "outputFile": "none"}) + " " + mat(pts),
                   meta={"d": d, "eps": eps, "dim": dim, "ctype": ctype, "points": True, "heavy": 1})
    # larger complexes
    for j, (n, dim, ctype) in enumerate([(300, 1, "simplexTree"), (300, 1, "indSimplexTree"), (60, 1, "simplexArrayList"), (28, 3, "simplexTree"),
                                         (24, 3, "indSimplexTree"), (40, 2, "simplexTree"), (14, 3, "simplexArrayList"), (13, 6, "simplexTree"), (12, 6, "indSimplexTree")]):
        pts = gens.cloud(rng, n, 3, rng.choice(["uniform", "gauss", "clusters"]))
        d = ref.dist_matrix(pts)
        eps = max(map(max, d)) * rng.choice([0.5, 0.7, 1.1])
        yield Case("big%d" % j, "probe", "pipeline " + conf({"epsilon": "%.17g" % eps, "dimensions": dim, "complexType": ctype, "debug": 0,
                                                             "pipeline": "distMatrix.neighGraph.rips", "outputFile": "none"}) + " " + mat(pts),
                   meta={"d": d, "eps": eps, "dim": dim, "ctype": ctype, "points": True})


def read_dump(ev):
    """list of dumps: (levels list of [(weight, simplex)...], counts)"""
    out = []
    cur = None
    for e in ev:
        a = e.split()
        if not a:
            continue
        if a[0] == "levels":
            cur = [[] for _ in range(int(a[1]))]
        elif a[0] == "splx":
            cur[int(a[1])].append((fh(a[2]), tuple(map(int, a[3:]))))
        elif a[0] == "counts":
            out.append((cur, int(a[1]), int(a[2]), fh(a[3])))
            cur = None
    return out


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    m = c.meta
    d, eps, dim, ctype = m["d"], m["eps"], m["dim"], m["ctype"]
    incl = ctype == "simplexArrayList"
    lv = ref.rips(d, eps, dim, incl)
    n = len(d)
    tol = 1e-9 * (1 + max(max(r) for r in d)) if m["points"] else 0.0
    v = []
    dumps = read_dump(o.events)
    if len(dumps) != (1 if m["points"] else 2):
        return Verdict([("protocol", "expected content dump missing: %d" % len(dumps))])
    for k, (got, vc, sc, size) in enumerate(dumps):
        tag = "" if k == 0 else " (asked again)"
        ne = [l for l in got if l]
        if len(ne) != len(lv):
            v.append(("levels", "complex has %d non-empty dimensions, expected %d%s (%s, eps %g, %d points)" % (len(ne), len(lv), tag, ctype, eps, n)))
        for dd, l in enumerate(ne):
            if dd >= len(lv):
                break
            gs = [s for _, s in l]
            gset = set(gs)
            if len(gset) != len(gs):
                dup = [s for s, k in collections.Counter(gs).items() if k > 1][:3]
                v.append(("duplicate", "dimension %d lists %s more than once%s" % (dd, dup, tag)))
            exp = lv[dd]
            miss = [s for s in exp if s not in gset]
            extra = [s for s in gs if s not in exp]
            if miss:
                v.append(("missing", "%s eps %g: simplex %s missing in dimension %d (%d of %d)%s" % (ctype, eps, sorted(miss)[0], dd, len(miss), len(exp), tag)))
            if extra:
                v.append(("extra", "%s eps %g: %s listed in dimension %d is not a Vietoris-Rips simplex%s" % (ctype, eps, extra[0], dd, tag)))
            bad = [(w, s) for w, s in l if s in exp and abs(w - exp[s]) > tol]
            if bad:
                v.append(("weight", "%s has weight %.9g, its diameter is %.9g%s" % (bad[0][1], bad[0][0], exp[bad[0][1]], tag)))
            ws = [w for w, _ in l]
            if any(ws[i] > ws[i + 1] for i in range(len(ws) - 1)):
                v.append(("order", "dimension %d is not listed by ascending weight (%s)%s" % (dd, ctype, tag)))
        total = sum(len(x) for x in lv)
        if vc != n:
            v.append(("vertexcount", "%s reports %d vertices for %d points%s" % (ctype, vc, n, tag)))
        if sc != total:
            v.append(("simplexcount", "%s reports %d simplices, the complex has %d%s" % (ctype, sc, total, tag)))
    if not m["points"]:
        ins = [tuple(map(int, x.split())) for x in o.get("inserted")]
        for i, (vc, sc) in enumerate(ins):
            upto = 1 if incl else dim
            e = sum(1 for l in lv[:upto + 1] for s in l if max(s) <= i)
            if vc != i + 1 or sc != e:
                v.append(("counts-insert", "%s after %d insertions: %d vertices, %d simplices reported, expected %d and %d" % (ctype, i + 1, vc, sc, i + 1, e)))
                break
        if len(ins) != n:
            v.append(("protocol", "insertion events missing"))
        fs = iter(o.get("find"))
        ds = iter(o.get("dimedges"))
        for a in m["asked"]:
            if a[0] == "f":
                r = next(fs).split()
                s = tuple(a[1])
                want = len(s) <= len(lv) and s in lv[len(s) - 1]
                if (r[0] == "1") != want:
                    v.append(("find", "find(%s) answers %s, stored: %s" % (s, r[0], want)))
            else:
                r = next(ds).split()
                got = sorted(tuple(map(int, x.replace("%20", " ").split())) if x != "%" else () for x in r[2:])
                k, e = a[1], a[2]
                want = sorted(s for s, w in (lv[k - 1].items() if k <= len(lv) else []) if w <= e)
                if got != want:
                    v.append(("dimedges", "getDimEdges(%d, %g) returns %d simplices, stored: %d" % (k, e, len(got), len(want))))
    sig = "%s d%d %s" % (ctype, dim, [len(x) for x in lv]) if len(lv) > 1 else None
    return Verdict(v, sig, evals=sum(len(x) for x in lv) * len(dumps), events=len(o.events))
