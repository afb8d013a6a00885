import re
from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *

TARGETS = ("LHF",)
CHUNK = 8
RULE = ("runs of the executable with every complex type, dimensions 0 to 4, stage lists (complete, partial, repeated, up to 130 stages), preprocessors and modes; the header and every row of the statistics file "
        "are compared with the stages run, in order, and the counts with the number of points and of enumerated Vietoris-Rips simplices. "
        "Non-trivial: at least two rows; distinct: stage list, counts")
MIN_DISTINCT = 80
NAMES = {"distMatrix": "DistMatrix", "neighGraph": "neighGraph", "rips": "ripsPipe", "fastPersistence": "FastPersistence", "fast": "FastPersistence"}
HEADER = "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount"
VR = "distMatrix.neighGraph.rips.fastPersistence"


def gen(rng, tier):
    total = 1200 if tier != "thorough" else 8000
    for i in range(total):
        dim = rng.choice([0, 1, 2, 2, 3, 4])
        ctype = rng.choice(TYPES)
        cap = {0: 25, 1: 25, 2: 16, 3: 11, 4: 9}[dim]
        if ctype == "simplexArrayList":
            cap = {0: 14, 1: 14, 2: 9, 3: 8, 4: 7}[dim]
        r = rng.random()
        n = 1 if r < 0.05 else rng.randint(2, cap)
        pts = gens.cloud(rng, n, rng.choice([1, 2, 3]), gens.KINDS[i % len(gens.KINDS)])[:cap]
        extra, pre, stages, k = [], "", VR, 0
        r = rng.random()
        if r < 0.3:
            stages = rng.choice(["distMatrix", "distMatrix.neighGraph", "distMatrix.neighGraph.rips", "distMatrix.neighGraph.fast", "distMatrix.distMatrix.neighGraph.rips.rips.fastPersistence"])
            extra = ["-p", stages]
        elif r < 0.4:
            extra = ["-m", "fast"]
            ctype = "simplexTree"
        elif r < 0.6:
            pre = rng.choice(["kmeans++", "kmeans", "denStream"])
            k = rng.randint(1, max(1, min(len(pts), cap)))
            extra = ["-pre", pre, "-k", str(k)]
            if rng.random() < 0.3:
                pts = pts * rng.randint(2, 6)
        elif r < 0.7:
            # everything merged by the partitions' runs as well
            extra = ["-m", "reduced", "-k", str(rng.randint(1, 3))]
            ctype = "simplexTree"
            pre = "reduced"
        if i % 40 == 7:
            # sizes up to several megabytes
            pts = gens.cloud(rng, rng.choice([55, 60, 70, 150, 220]), 2, rng.choice(["uniform", "clusters", "grid"]))
            dim = 2 if len(pts) <= 70 else 1
            ctype = rng.choice(["simplexTree", "indSimplexTree"])
            extra, pre, stages, k = [], "", VR, 0
            if len(pts) > 150 or rng.random() < 0.5:
                stages = "distMatrix.neighGraph.rips"
                extra = ["-p", stages]
        if i % 40 == 27:
            # many rows
            stages = ".".join(["distMatrix"] * rng.choice([20, 40, 130]) + rng.choice([["neighGraph", "rips"], ["neighGraph", "fast"], []]))
            extra, pre, k = ["-p", stages], "", 0
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d)
        if i % 40 == 7:
            w = sorted(x for r in d for x in r if x > 0)
            eps = w[int((len(w) - 1) * rng.choice([0.2, 0.4, 0.6 if dim == 1 else 0.5]))] * 1.001
        if ref.near_eps(d, eps):
            continue
        if rng.random() < 0.3:
            extra = extra + ["-x", "1"]
        yield cli_case("c%d" % i, pts, eps, dim, ctype, extra, "repr", {"pre": pre, "stages": stages, "k": k}, long=rng.random() < 0.3, mkdirs=("output",))


def counts(pts, eps, dim, ctype, stages):
    """set of allowed (vertices, simplices) after every stage"""
    d = ref.dist_matrix(pts)
    incl = ctype == "simplexArrayList"
    full = ref.rips(d, eps, max(dim, 1) + 1, incl)
    num = [sum(len(x) for x in full[:k + 1]) for k in range(max(dim, 1) + 2)]
    out = []
    cur = {(0, 0)}
    for s in stages.split("."):
        if s == "neighGraph":
            # the lists start with points and edges, the trees with everything
            cur = {(len(pts), num[1] if incl else num[max(1, dim)])}
            if dim == 0:
                cur |= {(len(pts), num[0])}      # edges are optional then
        elif s in ("rips", "fast", "fastPersistence") and incl:
            top = dim if s == "rips" else dim + 1
            # expanding once more than needed is up to the implementation
            cur = {(len(pts), x) for x in (num[max(1, dim)], num[max(1, min(top, dim + 1))])} | (cur if dim < 2 else set())
        out.append(cur)
    return out


def judge(c, o):
    m = c.meta
    if o.status != "ok":
        return Verdict([(o.key, "%s ended with %s\n%s" % (" ".join(c.argv), o.key, o.stderr[:600]))])
    t = o.files.get("out_stats.csv")
    if t is None:
        return Verdict([("missing", "no statistics file")])
    v = []
    lines = t.split("\n")
    if lines[0] != HEADER:
        v.append(("header", "statistics file starts with %r" % lines[0][:100]))
    if lines[-1] != "":
        v.append(("newline", "the last row is not ended"))
    rows = [l.split(",") for l in lines[1:] if l != ""]
    stages = m["stages"].split(".")
    if m["pre"]:
        name = "DenStream" if m["pre"] == "denStream" else "k-means++"
        if not rows or rows[0][0] != name:
            return Verdict(v + [("pre-row", "first row %s is not the preprocessor's" % rows[:1])])
        if len(rows[0]) != 2 or not float(rows[0][1]) >= 0:
            v.append(("pre-row", "preprocessor's row: %s" % rows[0]))
        rows = rows[1:]
    pts = m["pts"]
    if m["pre"] == "reduced":
        runs = [int(x) for x in re.findall(r"Running Pipeline with : (\d+) vectors", o.stdout)]
    else:
        runs = [None]
    if [r[0] for r in rows] != [NAMES[s] for s in stages] * len(runs):
        return Verdict(v + [("stages", "rows of stages %s, run were %s x %d" % ([r[0] for r in rows], [NAMES[s] for s in stages], len(runs)))])
    exp = None
    if not m["pre"]:
        exp = counts(pts, m["eps"], m["dim"], m["ctype"], m["stages"])
    for i, r in enumerate(rows):
        st = stages[i % len(stages)]
        if len(r) != 6:
            v.append(("columns", "row %s does not have six columns" % r))
            continue
        if not re.fullmatch(r"\d+\.\d{6}", r[1]):
            v.append(("time", "time %r" % r[1]))
        if r[3] not in ("B", "KB", "MB", "GB") or not (0 < float(r[2]) <= 1000.0 or r[3] == "GB") or (r[3] != "B" and float(r[2]) < 1.0):
            v.append(("size", "size %s %s" % (r[2], r[3])))
        a, b = int(r[4]), int(r[5])
        if exp is not None:
            if (a, b) not in exp[i]:
                v.append(("counts", "%s (%s): after stage %d (%s) %d vertices and %d simplices, expected %s" % (c.id, m["ctype"], i, st, a, b, sorted(exp[i]))))
        else:
            nv = runs[i // len(stages)] if m["pre"] == "reduced" else None
            if st == "distMatrix":
                if (a, b) != (0, 0):
                    v.append(("counts", "%d vertices and %d simplices before insertion" % (a, b)))
            elif nv is not None and a != nv:
                v.append(("counts", "partition of %d points: %d vertices after %s" % (nv, a, st)))
            elif b < a or a < 1 or (m["k"] and m["pre"] != "denStream" and a != min(m["k"], len(set(map(tuple, pts))))):
                v.append(("counts", "%d vertices and %d simplices after %s" % (a, b, st)))
    sig = None
    if len(rows) > 1:
        sig = "%s %s %s %s" % (m["stages"], m["pre"], m["ctype"], [r[4:] for r in rows[:8]])
    return Verdict(v, sig, evals=5 * len(rows), events=len(rows))
