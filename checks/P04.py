from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *

TARGETS = ("LHF",)
CHUNK = 6
RULE = ("each generated point cloud is run through the executable with the three complex types and the equivalent spellings of the standard pipeline "
        "(--mode standard, --mode fast, explicit stage list, stage name fast, no expansion stage, stages listed again); every barcode file is matched against that of the first run. "
        "Non-trivial: at least two intervals; distinct: the reported intervals, rounded")
MIN_DISTINCT = 40
EXPL = "distMatrix.neighGraph.rips.fastPersistence"
SPELL = [("simplexTree", []), ("simplexArrayList", []), ("indSimplexTree", []), ("simplexTree", ["-m", "standard"]), ("simplexTree", ["--mode", "fast"]),
         ("simplexTree", ["--pipeline", EXPL]), ("simplexTree", ["-p", "distMatrix.neighGraph.rips.fast"]), ("indSimplexTree", ["-p", EXPL]),
         ("simplexArrayList", ["-p", "distMatrix.neighGraph.fast"]), ("indSimplexTree", ["-p", "distMatrix.neighGraph.rips.fast"]),
         ("simplexArrayList", ["-p", EXPL, "-m", "standard"]), ("indSimplexTree", ["-m", "fast"]),
         ("simplexTree", ["-p", "distMatrix.distMatrix.neighGraph.rips.rips.fast"]), ("simplexArrayList", ["-p", "distMatrix.distMatrix.neighGraph.rips.rips.fast"]),
         ("indSimplexTree", ["-p", "distMatrix.distMatrix.neighGraph.rips.rips.fast"]), ("simplexTree", ["-p", "distMatrix.neighGraph.fast.rips.fastPersistence"]),
         ("simplexArrayList", ["-p", "distMatrix.neighGraph.rips.fast.fast"]), ("indSimplexTree", ["-p", "distMatrix.neighGraph.fast.fast"]),
         ("simplexArrayList", ["-p", "distMatrix.neighGraph.fast.rips.fast"]), ("indSimplexTree", ["-p", "distMatrix.neighGraph.fast"]),
         ("simplexTree", ["-p", "distMatrix.rips.neighGraph.distMatrix.fast"]), ("simplexTree", ["-t", "true"]), ("indSimplexTree", ["--twist", "true"]),
         ("simplexArrayList", ["-t", "true"])]


def gen(rng, tier):
    total = {"few": 40, "sample": 240, "quick": 720}.get(tier, 3600)
    for i in range(total):
        kind = gens.KINDS[i % len(gens.KINDS)]
        dim = rng.choice([1, 2, 2, 3, 3, 4])
        n = rng.randint(2, {1: 18, 2: 12, 3: 9, 4: 8}[dim])
        pts = gens.cloud(rng, n, rng.choice([1, 2, 2, 3]), kind)[:12]
        if dim > 2:
            pts = pts[:10]
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d)
        if ref.near_eps(d, eps):
            continue
        sp = SPELL[:3] + rng.sample(SPELL[3:], 3 if tier != "thorough" else 5)
        style = rng.choice(["repr", "17g"])
        runs = [cli_case("r%d" % k, pts, eps, dim, t, e, style) for k, (t, e) in enumerate(sp)]
        yield Case("c%d" % i, "multi", runs=runs, meta={"spell": [t + " " + " ".join(e) for t, e in sp], "d": d})
    for i in range({"few": 3, "sample": 20, "quick": 60}.get(tier, 240)):
        # more points with few neighbours each, and higher dimensions
        if i % 3:
            n = rng.choice([20, 30, 40, 64, 70])
            dim = rng.choice([1, 2, 2, 3])
            pts = gens.cloud(rng, n, rng.choice([2, 3]), rng.choice(["uniform", "gauss", "gridset", "clusters", "circle", "chains", "jitter", "multiplicity"]))
            d = ref.dist_matrix(pts)
            w = sorted(x for k, r in enumerate(d) for x in r[:k])
            eps = w[min(len(w) - 1, n * rng.choice([2, 3]))] * 1.0000123 + 1e-7
            if sum(map(len, ref.rips(d, eps, dim))) > 700:
                continue
        else:
            pts = gens.cloud(rng, 8, 4, "sphere") if rng.random() < 0.5 else gens.cloud(rng, rng.randint(5, 7), 3, rng.choice(["gauss", "gridset", "grid"]))
            d = ref.dist_matrix(pts)
            dim = rng.choice([5, 5, 6])
            pts = pts[:7]
            d = ref.dist_matrix(pts)
            eps = gens.pick_eps(rng, d)
        if ref.near_eps(d, eps):
            continue
        sp = SPELL[:3] + rng.sample(SPELL[3:], 2)
        runs = [cli_case("r%d" % k, pts, eps, dim, t, e, "repr") for k, (t, e) in enumerate(sp)]
        yield Case("m%d" % i, "multi", runs=runs, meta={"spell": [t + " " + " ".join(e) for t, e in sp], "d": d, "heavy": 1})


def judge(c, o):
    v = []
    res = []
    for s, x in zip(c.meta["spell"], o.subs):
        bars, bad = bars_of(x)
        if bad:
            v.append((bad[0], s + ": " + bad[1]))
        res.append(bars)
    if v:
        return Verdict(v)
    tol = tol_for(c.meta["d"])
    first = res[0]
    for s, b in zip(c.meta["spell"][1:], res[1:]):
        a0 = sorted(x for x in first if x[0] == 0)
        b0 = sorted(x for x in b if x[0] == 0)
        if len(a0) != len(b0) or any(abs(x[1] - y[1]) > tol or abs(x[2] - y[2]) > tol for x, y in zip(a0, b0)):
            v.append(("differs0", "dimension 0: '%s' reports %s; '%s' reports %s" % (c.meta["spell"][0], show(a0), s, show(b0))))
        u1, u2 = ref.match([x for x in first if x[0]], [x for x in b if x[0]], tol)
        if u1 or u2:
            v.append(("differs", "only by '%s': %s; only by '%s': %s" % (c.meta["spell"][0], show(u1), s, show(u2))))
    sig = show([(a, round(x, 3), round(y, 3)) for a, x, y in first], 20) if len(first) > 1 else None
    return Verdict(v, sig, evals=len(res) - 1, events=sum(map(len, res)))
