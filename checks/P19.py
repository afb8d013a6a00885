from lib import gens, ref
from lib.core import Verdict, Case, mat, conf, fh, unesc
from lib.barcheck import *
from checks.P03 import read_dump

TARGETS = ("probe",)
CHUNK = 6
RULE = ("sequences of 1 to 25 data sets (growing, shrinking, single points, identical points, edgeless and complete, different dimension) run one after the other through one packet whose "
        "complex is cleared in between, and each through a packet of its own in the same process; per data set the counts after every stage, the distance table, the simplices with weights, "
        "the barcode text, the interval table and the statistics rows are compared between both, the complex with the enumerated Vietoris-Rips complex, and a cleared complex has to be empty. "
        "Non-trivial: at least two data sets; distinct: type, dimensions and simplex counts of the sequence")
MIN_DISTINCT = 40


def gen(rng, tier):
    total = {"few": 133, "sample": 800, "quick": 2400}.get(tier, 12000)
    for i in range(total):
        ctype = rng.choice(["simplexTree", "simplexTree", "simplexArrayList"])
        dim = rng.choice([1, 2, 2, 3, 4])
        cap = {1: 20, 2: 12, 3: 9, 4: 8}[dim]
        if ctype == "simplexArrayList":
            cap = {1: 12, 2: 9, 3: 7, 4: 7}[dim]
        sets = []
        long = i % 10 == 5
        big = i % 10 == 8
        if long:
            cap = 6
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6]) if not long else rng.choice([9, 12, 16, 25])):
            r = rng.random()
            n = 1 if r < 0.12 else 2 if r < 0.2 else rng.randint(3, cap)
            p = gens.cloud(rng, n, rng.choice([1, 2, 3]), rng.choice(gens.KINDS))[:cap]
            if big and rng.random() < 0.5:
                # much larger than the others, few neighbours each
                dim = min(dim, 2)
                p = gens.cloud(rng, rng.choice([40, 65, 80]), 2, rng.choice(["uniform", "clusters", "gridset"]))
                cap = 80
            f = rng.choice([1.0, 1.0, 1.0, 0.1, 10.0])
            sets.append([[x * f for x in q] for q in p])
        if rng.random() < 0.2:
            sets.append(sets[0])
        while rng.random() < 0.5 and len(sets) < 8:
            # a relative of an earlier data set, of the same size: some of the distances stay
            p = [list(q) for q in rng.choice(sets[-2:])]
            r = rng.random()
            k = rng.randrange(len(p))
            a = rng.randrange(len(p[0]))
            if r < 0.3:
                # mirrored through the first point: distances to it stay
                p[k] = [2 * y - x for x, y in zip(p[k], p[0])]
            elif r < 0.5:
                p[k][a] += rng.choice([1.0, -1.0, 0.25])
            elif r < 0.6:
                p[-1] = list(p[0])
            elif r < 0.7:
                p = p[::-1]
            elif r < 0.8:
                rng.shuffle(p)
            elif r < 0.9:
                p.pop()
            else:
                p.insert(0, [x + 0.5 for x in p[0]])
            if p and len(p) <= cap:
                sets.append(p)
        eps = gens.pick_eps(rng, ref.dist_matrix(max(sets, key=len)))
        if max(map(len, sets)) > 20:
            l = max(map(len, sets))
            w = sorted(x for k, r in enumerate(ref.dist_matrix(max(sets, key=len))) for x in r[:k])
            eps = w[l * rng.choice([1, 2, 3])] * 1.0000123 + 1e-7
            if sum(sum(map(len, ref.rips(ref.dist_matrix(q), eps, dim, True))) if len(q) > 20 or dim < 3 else 0 for q in sets) > (800 if ctype == "simplexArrayList" else 3000):
                continue
        if any(ref.near_eps(ref.dist_matrix(s), eps) for s in sets):
            continue
        yield Case("c%d" % i, "probe", "reuse " + conf({"epsilon": "%.17g" % eps, "dimensions": dim, "complexType": ctype, "outputFile": "none",
                                                        "pipeline": rng.choice(["distMatrix.neighGraph.rips.fastPersistence", "distMatrix.neighGraph.fast"])})
                   + " %d " % len(sets) + " ".join(mat(s) for s in sets), meta={"sets": sets, "eps": eps, "dim": dim, "ctype": ctype})


def stats_shape(x):
    """statistics without the times"""
    return [r.split(",")[:1] + r.split(",")[2:] for r in unesc(x).split("\n") if r]


def split(events):
    parts = {}
    cur = None
    for e in events:
        a = e.split(" ")
        if a[0] in ("run", "fresh") and len(a) == 2:
            cur = parts.setdefault((a[0], int(a[1])), [])
        else:
            cur.append(e)
    return parts


def part(ev):
    """what one data set left, as comparable values"""
    r = {"stages": [e for e in ev if e.startswith(("stage", "after"))], "dist": [e for e in ev if e.startswith("dist")],
         "table": [e for e in ev if e.startswith("table")], "betti": [e for e in ev if e.startswith("betti")]}
    st = [e for e in ev if e.startswith("stats")]
    r["stats"] = stats_shape(st[0][6:]) if st else None
    dump = read_dump(ev)
    lv, vc, sc, size = dump[0]
    # entries of equal weight may come in any order
    r["complex"] = [sorted(l) for l in lv if l]
    r["counts"] = (vc, sc, size)
    return r


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    m = c.meta
    v = []
    parts = split(o.events)
    counts = []
    for i, pts in enumerate(m["sets"]):
        if ("run", i) not in parts or ("fresh", i) not in parts:
            return Verdict([("protocol", "data set %d left no events" % i)])
        a, b = part(parts[("run", i)]), part(parts[("fresh", i)])
        where = "data set %d of %d (%d points, %s, dimensions %d, epsilon %g)" % (i + 1, len(m["sets"]), len(pts), m["ctype"], m["dim"], m["eps"])
        for k in ("stages", "dist", "complex", "counts", "betti", "table", "stats"):
            if a[k] != b[k]:
                v.append((k, "%s: %s after clearing differs from a new packet's: %s / %s" % (where, k, str(a[k])[:200], str(b[k])[:200])))
        d = ref.dist_matrix(pts)
        top = m["dim"] + 1 if m["ctype"] == "simplexArrayList" and m["dim"] > 0 else m["dim"]
        lv = ref.rips(d, m["eps"], top, m["ctype"] == "simplexArrayList")
        got = [set(s for _, s in l) for l in a["complex"]]
        want = [set(l) for l in lv]
        if got[:m["dim"] + 1] != want[:m["dim"] + 1]:
            v.append(("content", "%s: the complex is not the Vietoris-Rips complex of the data set: %s simplices, expected %s" % (where, [len(x) for x in got], [len(x) for x in want])))
        cl = [e for e in parts[("run", i)] if e.startswith("cleared")]
        if len(cl) != 1:
            return Verdict([("protocol", "no cleared event")])
        x = cl[0].split()
        if [int(x[1]), int(x[2]), fh(x[3]), int(x[4])] != [0, 0, 0.0, 0]:
            v.append(("not-empty", "%s: cleared complex reports %s vertices, %s simplices, size %g and lists %s simplices" % (where, x[1], x[2], fh(x[3]), x[4])))
        counts.append([len(x) for x in a["complex"]])
        if v:
            break
    sig = "%s d%d %s" % (m["ctype"], m["dim"], counts) if len(m["sets"]) > 1 else None
    return Verdict(v, sig, evals=8 * len(m["sets"]), events=len(o.events))
