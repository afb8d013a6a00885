import itertools
import sys
import math
import re
from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *
from checks.P14 import stream

TARGETS = ("LHF",)
CHUNK = 6
RULE = ("runs of the executable with the k-means++ preprocessor (every complex type), the denStream preprocessor and in reduced mode (1 to 60 partitions) on generated clouds; the monitor takes the labels and "
        "representatives the run wrote, works out which points every partition holds, computes the persistent homology of each of these point sets separately and compares it with the barcode "
        "file and with the interval list printed at the end (values and boundary points in original indices). The preprocessor seeds itself, so every run is another clustering. Cases with a "
        "distance within rounding of epsilon or of the partition radius give no verdict. Non-trivial: at least two representatives; distinct: representatives and intervals")
MIN_DISTINCT = 60
sys.setrecursionlimit(20000)
NUM = r"-?(?:\d+\.?\d*(?:e[+-]?\d+)?|inf|nan)"


def gen(rng, tier):
    total = {"few": 43, "sample": 260, "quick": 1300}.get(tier, 6500)
    for i in range(total):
        mode = rng.choice(["kmeans", "kmeans", "denStream", "reduced", "reduced", "reduced"])
        if i % 8 == 3:
            mode = "upscale"
        dim = rng.choice([1, 2, 2, 3])
        kind = rng.choice(["sphere", "circle", "twocircles"]) if rng.random() < 0.4 else gens.KINDS[i % len(gens.KINDS)]
        extra = []
        if mode == "kmeans":
            ctype = rng.choice(TYPES)
            n = rng.randint(1, 70)
            pts = gens.cloud(rng, n, rng.choice([1, 2, 2, 3]), kind)
            k = rng.randint(1, {1: 20, 2: 14, 3: 9}[dim] - (3 if ctype == "simplexArrayList" else 0))
            extra = ["-pre", rng.choice(["kmeans++", "kmeans", "kmeansplusplus"]), "-k", str(k)]
            eps = gens.pick_eps(rng, ref.dist_matrix(rng.sample(pts, min(len(pts), k))))
        elif mode == "upscale":
            ctype = rng.choice(TYPES)
            pts = gens.cloud(rng, rng.randint(1, 300), rng.choice([1, 2, 3]), kind)
            extra = rng.choice([["-u", "true", "-pre", "kmeans++"], ["-pre", "kmeans", "--upscale", "true"], ["--mpi", "1"], ["-m", "upscaleBound"], ["-a", "1", "-pre", "kmeans"]])
            extra = extra + ["-k", str(rng.choice([1, 2, 3, 5, 20, 60]))]
            eps = 1.0
        elif mode == "denStream":
            ctype = rng.choice(TYPES)
            pts = stream(rng, rng.choice([60, 150, 300, 400]) if rng.random() < 0.8 else rng.choice([1, 10, 19, 1050]), rng.choice(["plain", "plain", "noise"]))
            eps = rng.choice([1.0, 2.0, 4.0, 8.0, 20.0])
            if rng.random() < 0.5:
                # many groups, each dense, closer together than epsilon allows to tell apart
                cs = [[c * x for x in p] for c, p in [(rng.uniform(3, 5), p) for p in ([math.cos(a), math.sin(a)] for a in [k * 6.2832 / 6 for k in range(6)])]]
                pts = []
                for _ in range(240):
                    c = rng.choice(cs)
                    pts.append([c[0] + rng.gauss(0, .2), c[1] + rng.gauss(0, .2)])
                eps = rng.choice([1.5, 2.0])
            extra = ["-pre", rng.choice(["denStream", "denstream", "DenStream"])]
        else:
            ctype = "simplexTree"
            cap = {1: 40, 2: 16, 3: 11}[dim]
            pts = gens.cloud(rng, rng.randint(2, cap), rng.choice([1, 2, 2, 3]), kind)[:cap]
            if rng.random() < 0.5:
                # groups far apart: partitions are proper parts
                m = rng.randint(2, 3)
                pts = []
                for g in range(m):
                    for p in gens.cloud(rng, max(2, cap // m), 2, rng.choice(["circle", "uniform", "gauss", "square", "grid"])):
                        pts.append([p[0] + rng.choice([60, 25]) * g, p[1]])
                if rng.random() < 0.5:
                    rng.shuffle(pts)
                pts = pts[:cap + 4]
            extra = ["-m", "reduced", "-k", str(rng.choice([1, 2, 2, 3, 3, 4, 6]))]
            eps = gens.pick_eps(rng, ref.dist_matrix(pts))
            if rng.random() < 0.2:
                extra += ["-c", rng.choice(TYPES)]       # overruled
        if i % 9 == 4 and mode in ("kmeans", "reduced"):
            f = rng.choice([2.0 ** 23, 1e7, 1e-3, 2.0 ** 40])
            pts = [[x * f for x in p] for p in pts]
            eps *= f
        if mode != "denStream" and rng.random() < 0.2:
            extra += ["-r", rng.choice(["1", "2", "3"])]
        if rng.random() < 0.15:
            extra += ["-x", "1"]
        yield cli_case("c%d" % i, pts, eps, dim, ctype, extra, "repr", {"mode": mode}, mkdirs=("output",))


    # long lists
    for i in range({"few": 1, "sample": 4, "quick": 16}.get(tier, 64)):
        n = rng.choice([130, 260, 300, 420, 530])
        pts = gens.cloud(rng, n, 2, rng.choice(["uniform", "gauss", "clusters", "bigscale"]))
        d = ref.dist_matrix(pts)
        w = sorted(x for k, r in enumerate(d) for x in r[:k])
        eps = w[n * rng.choice([2, 4, 6])] * 1.0000123 + 1e-9
        yield cli_case("long%d" % i, pts, eps, 1, "simplexTree", ["-m", "reduced", "-k", str(rng.choice([2, 3, 4]))], "repr", {"mode": "reduced"}, mkdirs=("output",))
    # many partitions
    for i in range({"few": 0, "sample": 2, "quick": 16}.get(tier, 64)):
        k = rng.choice([17, 25, 33, 40, 60])
        pts = []
        for g in range(k):
            # squares: every partition has a loop of its own
            x, y = 40 * (g % 8) + rng.uniform(-5, 5), 40 * (g // 8) + rng.uniform(-5, 5)
            pts += [[x + rng.uniform(-.2, .2) + a, y + rng.uniform(-.2, .2) + b] for a, b in ((0, 0), (3, 0), (0, 3), (3, 3), (rng.choice([1.5, 6]), 0))]
        rng.shuffle(pts)
        yield cli_case("parts%d" % i, pts, rng.choice([3.8007, 5.3003]), rng.choice([1, 2]), "simplexTree", ["-m", "reduced", "-k", str(k)], "repr", {"mode": "reduced"}, mkdirs=("output",))


def csvrows(t):
    return [[float(x) for x in l.rstrip(",").split(",")] for l in t.split("\n") if l]


def means(pts, lab, cents):
    """exact representatives where there are points, else the printed ones"""
    out, rounded = [], False
    for k, c in enumerate(cents):
        s = [0.0] * len(c)
        n = 0
        for p, l in zip(pts, lab):
            if l == k:
                n += 1
                for j in range(len(c)):
                    s[j] += p[j]
        if n:
            out.append([x / n for x in s])
        else:
            out.append(c)
            rounded = True
    return out, rounded


def near(d, eps, tol):
    return any(abs(d[i][j] - eps) <= tol for i in range(len(d)) for j in range(i + 1, len(d)))


def judge(c, o):
    m = c.meta
    pts, eps, dim, mode = m["pts"], m["eps"], m["dim"], m["mode"]
    if o.status != "ok":
        return Verdict([(o.key, "%s ended with %s\n%s" % (" ".join(c.argv), o.key, o.stderr[:600]))])
    name = "DenStream" if mode == "denStream" else "k-means++"
    v = []
    cents = csvrows(o.files.get("output/%s_centroid_output.csv" % name, ""))
    lab = [int(x) for x in o.files.get("output/%s_label_output.csv" % name, "").split()]
    if not cents and mode == "denStream":
        # every micro-cluster may have faded
        bars = [l for l in o.files.get("out.csv", "").split("\n")[1:] if l]
        return Verdict([("invented", "%s: no representatives, but intervals %s" % (c.id, bars[:3]))] if bars else [])
    if not cents:
        return Verdict([("no-reps", "%s: no representatives were written" % c.id)])
    scale = max([1.0] + [abs(x) for p in pts for x in p])
    tol = 1e-9 * scale
    if mode == "denStream":
        reps, tol = cents, 3e-6
    else:
        if len(lab) != len(pts) or any(l >= len(cents) for l in lab):
            return Verdict([("labels", "%s: %d labels up to %d for %d points and %d representatives" % (c.id, len(lab), max(lab or [0]), len(pts), len(cents)))])
        if mode == "upscale":
            k = int(c.argv[c.argv.index("-k") + 1])
            a = re.search(r"^Partitions: (\d+)\nCounts: ((?:\d+\t)*)$", o.stdout, re.M)
            want = [sum(l == j for l in lab) for j in range(k)]
            got = [int(x) for x in a.group(2).split()] if a else None
            if not a or int(a.group(1)) != len(got) or got[:k] + [0] * (k - len(got)) != want or any(got[k:]):
                return Verdict([("upscale", "%s: announced partitions %s, the labels give %s" % (c.id, a and a.group(0), want))])
            return Verdict([], "upscale %d %s" % (len(pts), want) if len(cents) > 1 else None, len(want), events=len(lab))
        reps, r = means(pts, lab, cents)
        for a, b in zip(reps, cents):
            if ref.dist(a, b) > 1e-5 + 1e-9 * scale:
                v.append(("rep", "%s: representative %s written, its points' mean is %s" % (c.id, b, a)))
        if r:
            tol = 3e-6
    dr = ref.dist_matrix(reps)
    if near(dr, eps, max(tol, 1e-9 * eps)):
        return Verdict(v, None, 0, "a distance of representatives is too near to epsilon")
    if len(reps) > 34 or dim > 1 and len(reps) > {2: 24, 3: 14}[dim]:
        return Verdict(v, None, 0, "too many representatives to compare")
    got, err = bars_of(o)
    if err:
        return Verdict(v + [err])
    b0, bh = ref.vr_bars(reps, eps, dim, dr)
    btol = 2e-6 + 2 * tol + 1e-9 * scale
    g0 = [b for b in got if b[0] == 0]
    gh = [b for b in got if b[0] > 0]
    ue, ug = ref.match(bh, gh, btol)
    if ue or ug or len(g0) != len(b0) or any(x[1] != 0 or abs(x[2] - y[2]) > btol for x, y in zip(sorted(g0), sorted(b0))):
        v.append(("barcode", "%s (%s): barcode of the %d representatives should be %s, the file has %s (missing %s, additional %s)"
                  % (c.id, mode, len(reps), show(b0 + bh), show(got), show(ue), show(ug))))
    evals = len(got)
    sig = "%s %s %s" % (mode, len(reps), [tuple(round(x, 3) for x in b) for b in sorted(got)][-6:]) if len(reps) > 1 else None
    if mode != "reduced":
        return Verdict(v, sig, evals, events=len(got))
    # partitions
    rad = max(ref.dist(p, reps[l]) for p, l in zip(pts, lab))
    said = re.search(r"^Using maxRadius: (%s)$" % NUM, o.stdout, re.M)
    if not said or abs(float(said.group(1)) - rad) > 1e-5 * (rad + scale * 1e-6) + 2e-6:
        v.append(("radius", "%s: maximum radius %s, should be %r" % (c.id, said and said.group(1), rad)))
    parts = []
    for r in reps:
        part = []
        for i, p in enumerate(pts):
            x = ref.dist(p, r)
            if abs(x - 2 * rad) <= 4 * tol:
                return Verdict(v, sig, evals, "a point is too near to the partition radius")
            if x < 2 * rad:
                part.append(i)
        parts.append(part)
    if rad > 4 * tol and set(itertools.chain(*parts)) != set(range(len(pts))):
        v.append(("model", "partitions do not cover"))
    counts = [int(x) for x in re.findall(r"Running Pipeline with : (\d+) vectors", o.stdout)]
    if sorted(counts) != sorted([len(x) for x in parts if x] + [len(reps)]):
        v.append(("partitions", "%s: runs of %s points, the partitions have %s and there are %d representatives" % (c.id, counts, [len(x) for x in parts], len(reps))))
    tail = o.stdout.split("_______BETTIS_______\n")
    if len(tail) != 2:
        return Verdict(v + [("list", "%s: no interval list at the end" % c.id)])
    rows = []
    for l in tail[1].split("\n"):
        if not l:
            continue
        a = re.fullmatch(r"(\d+),\t(%s),\t(%s),\t((?:\d+,)*)" % (NUM, NUM), l)
        if not a:
            v.append(("list-line", "%s: line %r in the interval list" % (c.id, l)))
            continue
        rows.append((int(a.group(1)), float(a.group(2)), float(a.group(3)), [int(x) for x in a.group(4).split(",")[:-1]]))
    d = ref.dist_matrix(pts)
    if near(d, eps, 1e-9 * (scale + eps)):
        return Verdict(v, sig, evals, "a distance is too near to epsilon")
    cache = {}
    exp = []      # (source, dim, birth, death)
    src = []
    for part in parts:
        if not part:
            continue
        t = tuple(part)
        if t not in cache:
            cache[t] = sum(ref.vr_bars([pts[i] for i in part], eps, dim), [])
        src.append((d, set(part)))
        exp += [(len(src) - 1,) + b for b in cache[t]]
    src.append((dr, set(range(len(reps)))))
    exp += [(len(src) - 1,) + b for b in b0 + bh]
    rel = 6e-6      # six significant digits are printed
    def same(x, y):
        return abs(x - y) <= rel * max(abs(x), abs(y)) + 2 * tol
    fits = {}
    def valid(s, row):
        """the boundary points suit an interval of this source"""
        key = (s, row)
        if key in fits:
            return fits[key]
        D, members = src[s]
        k, b, e, bp = row
        if not set(bp) <= members:
            r = False
        elif k == 0:
            r = len(bp) == 0 and same(e, eps) or len(bp) == 1 and any(same(D[bp[0]][j], e) for j in members if j != bp[0]) or len(bp) == 2 and same(D[bp[0]][bp[1]], e)
        else:
            r = False
            for x in itertools.combinations(bp, k + 1):
                dia = max(D[i][j] for i, j in itertools.combinations(x, 2))
                if same(dia, b):
                    r = True
                    break
        fits[key] = r
        return r
    rows2 = [(r[0], r[1], r[2], tuple(r[3])) for r in rows]
    adj = [[j for j, r in enumerate(rows2) if r[0] == e[1] and same(r[1], e[2]) and same(r[2], e[3]) and valid(e[0], r)] for e in exp]
    mg = [-1] * len(rows2)
    def aug(i, seen):
        for j in adj[i]:
            if j not in seen:
                seen.add(j)
                if mg[j] < 0 or aug(mg[j], seen):
                    mg[j] = i
                    return True
        return False
    missing = [e for i, e in enumerate(exp) if not aug(i, set()) and (e[1] == 0 or not same(e[2], e[3]))]
    extra = [r for j, r in enumerate(rows2) if mg[j] < 0 and (r[0] == 0 or not same(r[1], r[2]))]
    if missing or extra:
        w = [("partition %s" % sorted(src[e[0]][1]) if e[0] < len(src) - 1 else "representatives", "H%d [%.6g, %.6g)" % e[1:]) for e in missing[:4]]
        v.append(("list", "%s: the interval list lacks %s, and %s in it belong to no partition" % (c.id, w, extra[:4])))
    evals += len(rows) + len(parts)
    return Verdict(v, sig + " %d %s" % (len(rows), [len(x) for x in parts]) if sig else None, evals, events=len(rows) + len(got))
