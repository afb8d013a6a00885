import re
from lib import gens, ref, csvgen
from lib.core import Verdict, Case, conf, fh, hx
from lib.barcheck import *
from checks.P03 import read_dump

CHUNK = 6
RULE = ("streams of 1 to 460, some 2600, one 33000 points (around every multiple of 50 and 100, blank lines, long lines, CRLF) run through the naive window, by the executable (announced points, announced window "
        "sizes, statistics row, barcode file, window dumped at debug level) and by the probe (window handed on, distance table and complex). The window is compared with the last 50 points at "
        "the last multiple of 100, the complex with the Vietoris-Rips complex of the first 50. Non-trivial: the window filled; distinct: stream length, dimension and complex size")
MIN_DISTINCT = 40
WIN = 50


def length(rng):
    return rng.choice([1, 2, 25, 48, 49, 50, 51, 52, 98, 99, 100, 101, 102, 149, 150, 151, 198, 199, 200, 201, 202, 249, 250, 251, 299, 300, 301, 399, 400, 401, 460, rng.randint(50, 460)])


def runs(rng, n, dims):
    """the same point several times in a row, and coming back later"""
    base = [[rng.uniform(0, 9) for _ in range(dims)] for _ in range(rng.randint(1, 12))]
    pts = []
    while len(pts) < n:
        pts += [list(rng.choice(base))] * rng.choice([1, 2, 3, 60])
    return pts[:n]


def gen(rng, tier):
    total = {"few": 40, "sample": 240, "quick": 720}.get(tier, 3600)
    for i in range(total):
        n = length(rng) if i % 48 != 47 else rng.choice([1023, 1024, 1025, 1100, 1999, 2600])
        dims = rng.choice([1, 2, 3, 5, 5, 9, 18])
        kind = rng.choice(["uniform", "gauss", "clusters", "mixedscale", "negative", "line", "circle", "grid", "multiplicity", "dups", "bigscale", "shifted", "runs"])
        pts = runs(rng, n, dims) if kind == "runs" else gens.cloud(rng, n, dims, kind)[:n]
        dim = rng.choice([1, 1, 2, 3])
        w = sorted(x for r in ref.dist_matrix(pts[:WIN]) for x in r if x > 0)
        eps = (w[int((len(w) - 1) * rng.choice([0.02, 0.1, {1: .9, 2: .25, 3: .1}[dim]]))] * 1.0001 + 1e-9) if w else 1.0
        if ref.near_eps(ref.dist_matrix(pts[:WIN]), eps):
            continue
        style = rng.choice(["repr", "17g", "sp", "e"])
        sep = rng.choice(["\n", "\n", "\r\n"])
        lines = []
        for p in pts:
            if rng.random() < 0.04:
                lines.append("")
            s = ",".join(gens.fmt(x, style) for x in p)
            if rng.random() < 0.01:
                s += " " * rng.choice([900, 1100, 2500])
            lines.append(s)
        text = sep.join(lines) + (sep if rng.random() < 0.7 else "")
        m = {"pts": pts, "eps": eps, "dim": dim}
        if i % 2:
            cf = conf({"pipeline": "naivewindow", "complexType": "simplexTree", "epsilon": "%.17g" % eps, "dimensions": dim, "inputFile": "{d}/n%d.csv" % i, "outputFile": "none", "debug": "0"})
            yield Case("p%d" % i, "probe", "window " + cf + " 0", files={"n%d.csv" % i: text}, meta=m)
        else:
            dbg = rng.random() < 0.5
            yield Case("c%d" % i, "cli", argv=["-i", "in.csv", "-o", "out", "-e", "%.17g" % eps, "-d", str(dim), "-m", rng.choice(["naive", "naivewindow"])] + (["-x", "1"] if dbg else []),
                       files={"in.csv": text}, meta=dict(m, dbg=dbg), mkdirs=("output",))
    if tier in ("quick", "thorough"):
        n = rng.choice([33000, 33010, 32799, 32999])
        pts = [[float(rng.randint(-99, 99))] for _ in range(n)]
        m = {"pts": pts, "eps": 20.5, "dim": 1, "dbg": False}
        yield Case("long", "cli", argv=["-i", "in.csv", "-o", "out", "-e", "20.5", "-d", "1", "-m", "naive"], files={"in.csv": "".join("%d\n" % p[0] for p in pts)}, meta=m, mkdirs=("output",))


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "%d points: ended with %s\n%s" % (len(c.meta["pts"]), o.key, o.stderr[:600]))])
    m = c.meta
    pts, n = m["pts"], len(m["pts"])
    v = []
    full = n >= WIN
    k = n // 100 * 100
    want = pts[k - WIN:k] if k >= 100 else pts[:WIN] if full else []
    lv = ref.rips(ref.dist_matrix(pts[:WIN]), m["eps"], m["dim"]) if full else []
    total = sum(len(x) for x in lv)
    if c.kind == "probe":
        if o.one("cfg") != "1":
            return Verdict([("config", "the naive window could not be configured")])
        got = o.matrix("win")
        if got != want:
            v.append(("window", "%d points: the window handed on is not points %d to %d (%d points, first %s)" % (n, max(0, k - WIN) + 1, max(k, WIN), len(got), str(got[:1]))))
        d = o.matrix("dist")
        if full:
            if len(d) != WIN or any(len(r) != WIN for r in d) or any(abs(d[i][j] - ref.dist(pts[i], pts[j])) > 1e-9 * (1 + d[i][j]) for i in range(WIN) for j in range(i + 1, WIN)):
                v.append(("distances", "the distance table is not that of the first %d points" % WIN))
            lev, vc, sc, _ = read_dump(o.events)[0]
            if [set(s for _, s in l) for l in lev if l] != [set(x) for x in lv]:
                v.append(("complex", "the complex is not the one of the first %d points: %s simplices, expected %s" % (WIN, [len(x) for x in lev], [len(x) for x in lv])))
            if (vc, sc) != (WIN, total):
                v.append(("counts", "complex reports %d vertices and %d simplices, expected %d and %d" % (vc, sc, WIN, total)))
        else:
            if d or read_dump(o.events)[0][0]:
                v.append(("early", "a window that never filled leaves a complex"))
    else:
        seen = [int(x) for x in re.findall(r"^Point: (\d+)$", o.stdout, re.M)]
        if seen != list(range(1, n + 1)):
            v.append(("points", "%d points in the stream, processed: %d (last %s)" % (n, len(seen), seen[-1:])))
        said = [int(x) for x in re.findall(r"Successfully evaluated (\d+) points", o.stdout + o.files.get("out", ""))]
        if said != [n]:
            v.append(("evaluated", "%d points in the stream, reported as evaluated: %s" % (n, said)))
        marks = re.findall(r"^pointCounter: (\d+)\tSimplex Count: (-?\d+)\tVertex Count: (-?\d+)\n\tWindowSize: (\d+)$", o.stdout, re.M)
        exp = [(x, total, WIN, WIN) for x in range(100, n + 1, 100)]
        if [tuple(map(int, x)) for x in marks] != exp:
            v.append(("marks", "%d points: announced windows (point, simplices, vertices, size) %s, expected %s" % (n, marks[:6], exp[:6])))
        if o.files.get("out.csv") != "dimension,birth,death\n":
            v.append(("result", "barcode file: %r" % o.files.get("out.csv", "missing")[:80]))
        st = [r.split(",") for r in o.files.get("out_stats.csv", "").split("\n")[1:] if r]
        es = ([["DistMatrix", 0, 0], ["neighGraph", WIN, total], ["NaiveWindow", WIN, total]] if full else [["NaiveWindow", 0, 0]])
        if [[r[0], int(r[4]), int(r[5])] for r in st] != es:
            v.append(("stats", "statistics rows %s, expected %s" % (st[:4], es)))
        if m["dbg"]:
            f = [x for x in o.files if x.startswith("output/NaiveWindow")]
            rows = [[float(y) for y in l.rstrip(",").split(",")] for l in o.files[f[0]].split("\n") if l.strip()] if f else None
            # the executable reads the whole file first; without a full window that is what is left
            w2 = want if full else pts
            if rows is None or len(rows) != len(w2) or any(len(a) != len(b) or any(abs(x - y) > 1e-5 * (1 + abs(y)) for x, y in zip(a, b)) for a, b in zip(rows, w2)):
                v.append(("window-dump", "%d points: window written at debug level has %s rows or other points, expected points %d to %d" % (n, rows and len(rows), max(0, k - WIN) + 1, max(k, WIN))))
    return Verdict(v, "%s n=%d d=%d %d" % (c.kind, n, m["dim"], total) if full else None, evals=4 + n, events=len(o.events) + o.stdout.count("\n"))
