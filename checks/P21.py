import itertools
from collections import Counter
from lib import gens, ref
from lib.core import Verdict, Case, mat, conf, fh, unesc
from lib.barcheck import *

TARGETS = ("probe",)
CHUNK = 8
RULE = ("point clouds of every kind with every complex type, dimensions 1 to 4 and several stage lists; each entry of the in-memory interval table is compared with the barcode text, "
        "its values with the distance table (exactly), and its boundary points with the simplices the intervals start from and merge along. "
        "Non-trivial: at least one interval of dimension 1 or more or two of dimension 0; distinct: type and table")
MIN_DISTINCT = 100


def gen(rng, tier):
    total = {"few": 266, "sample": 1600, "quick": 4800}.get(tier, 24000)
    for i in range(total):
        dim = rng.choice([1, 2, 2, 3, 3, 4])
        ctype = rng.choice(TYPES)
        cap = {1: 30, 2: 22, 3: 13, 4: 10}[dim]
        if ctype == "simplexArrayList":
            cap = {1: 16, 2: 12, 3: 9, 4: 8}[dim]
        r = rng.random()
        n = 1 if r < 0.03 else rng.randint(min(4, cap), cap)
        kind = rng.choice(["sphere", "circle", "twocircles"]) if rng.random() < 0.3 else gens.KINDS[i % len(gens.KINDS)]
        pts = gens.cloud(rng, n, rng.choice([1, 2, 2, 3, 3, 4]), kind)[:cap]
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d)
        yield Case("c%d" % i, "probe", "pipeline " + conf({"epsilon": "%.17g" % eps, "dimensions": dim, "complexType": ctype, "outputFile": "none",
                                                           "pipeline": rng.choice(["distMatrix.neighGraph.rips.fastPersistence", "distMatrix.neighGraph.fast", "distMatrix.neighGraph.rips.fast"])}) + " " + mat(pts),
                   meta={"pts": pts, "eps": eps, "dim": dim, "ctype": ctype})
    # more points with few neighbours each
    for j in range({"few": 5, "sample": 30, "quick": 90}.get(tier, 360)):
        n = rng.choice([40, 64, 70, 129, 200, 257])
        dim = rng.choice([1, 2, 2, 3])
        pts = gens.cloud(rng, n, rng.choice([2, 3]), rng.choice(["uniform", "gauss", "clusters", "gridset", "jitter", "chains", "multiplicity", "twocircles"]))
        d = ref.dist_matrix(pts)
        w = sorted(x for k, r in enumerate(d) for x in r[:k])
        eps = w[min(len(w) - 1, n * rng.choice([1, 2, 3, 4]))] * 1.0000123 + 1e-7
        sz = sum(map(len, ref.rips(d, eps, dim, True)))
        if sz > 3000:
            continue
        ctype = rng.choice(TYPES) if sz < 900 else rng.choice(["simplexTree", "indSimplexTree"])
        yield Case("s%d" % j, "probe", "pipeline " + conf({"epsilon": "%.17g" % eps, "dimensions": dim, "complexType": ctype, "outputFile": "none",
                                                           "pipeline": "distMatrix.neighGraph.rips.fastPersistence"}) + " " + mat(pts),
                   meta={"pts": pts, "eps": eps, "dim": dim, "ctype": ctype, "heavy": 1})


def judge(c, o):
    m = c.meta
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    n, eps = len(m["pts"]), m["eps"]
    t = o.matrix("dist")
    def D(i, j):
        return 0.0 if i == j else t[min(i, j)][max(i, j)]
    vals = {0.0, eps} | {t[i][j] for i in range(n) for j in range(i + 1, n)}
    v = []
    _, text = ref.parse_bars(unesc(o.one("betti")), header=False)
    lines = Counter(l for l in unesc(o.one("betti")).split("\n") if l)
    rows = []
    for e in o.get("table"):
        a = e.split()
        rows.append((int(a[0]), fh(a[1]), fh(a[2]), [int(x) for x in a[3:]]))
    mine = Counter("%d,%s,%.6f" % (r[0], "0" if r[0] == 0 and r[1] == 0 else "%.6f" % r[1], r[2]) for r in rows)
    if mine != lines:
        v.append(("text", "%s: only in the table %s, only in the text %s" % (c.id, list((mine - lines).items())[:4], list((lines - mine).items())[:4])))
    evals = 1
    for dim, b, d, bp in rows:
        evals += 3
        w = "%s H%d [%r, %r) boundary %s" % (c.id, dim, b, d, bp)
        if not 0 <= dim < max(1, m["dim"]):
            v.append(("dimension", w))
        if b not in vals or d not in vals or not b <= d or d > eps:
            v.append(("values", w + ": not 0, epsilon or a distance, or not in order"))
        if any(x >= n for x in bp) or len(set(bp)) != len(bp):
            v.append(("index", w + ": no such points"))
            continue
        if dim == 0:
            if b != 0:
                v.append(("birth", w))
            if not bp:
                # a component that is left
                if d != eps:
                    v.append(("h0-boundary", w + ": no boundary although merged"))
            elif len(bp) == 1:
                if not any(D(bp[0], j) == d for j in range(n) if j != bp[0]):
                    v.append(("h0-boundary", w + ": no edge of length death ends there"))
            elif len(bp) != 2 or D(*bp) != d:
                v.append(("h0-boundary", w + ": not an edge of length death"))
            continue
        exact = False
        covered = set()
        for s in itertools.combinations(sorted(bp), dim + 1):
            dia = max(D(x, y) for x, y in itertools.combinations(s, 2))
            if dia <= b:
                covered.update(s)
                exact |= dia == b
        if not exact:
            v.append(("birth-simplex", w + ": no simplex of that dimension with the birth as diameter among the boundary points"))
        if covered != set(bp):
            v.append(("stray", w + ": points %s belong to no simplex that exists at birth" % sorted(set(bp) - covered)))
    left = sum(1 for r in rows if r[0] == 0 and not r[3])
    if sum(1 for r in rows if r[0] == 0) != n:
        v.append(("h0-count", "%d dimension 0 entries for %d points" % (sum(1 for r in rows if r[0] == 0), n)))
    if left != ref.components(n, [(D(i, j), i, j) for i in range(n) for j in range(i + 1, n) if D(i, j) < eps or (m["ctype"] == "simplexArrayList" and D(i, j) == eps)])[0]:
        v.append(("left", "%s: %d components without boundary" % (c.id, left)))
    sig = None
    if any(r[0] for r in rows) or len(rows) > 1:
        sig = "%s %s" % (m["ctype"], [(r[0], round(r[1], 4), round(r[2], 4), r[3]) for r in rows if r[0]][:12] or [round(r[2], 4) for r in rows[:8]])
    return Verdict(v, sig, evals=evals, events=len(o.events))
