import importlib
import random
from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *

FLAVOURS = ["asan", "debug"]
CHUNK = 6
TECHNIQUE = "runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ debug containers (iterator validity, ranges) under generated workloads"
NOTE = "Any sanitizer report, debug-container abort, exception, hang (120 s) or missing output file counts. Leaks are not looked at (the program leaks by design)."
RULE = ("generated valid inputs over the cross product of mode, complex type, dimensions 0 to 6, scale (0, below all, between, above all distances, 1e6), debug level, preprocessor and "
        "its parameters, input style and data kind (1 to 320 points, 1 to 12 columns, identical, collinear, extreme coordinates) run through the executable built with ASan+UBSan and "
        "again with the debug containers; plus a sample of the other monitors' cases (reading, writing, streams, sets, kd-tree, DBSCAN, micro-clusters, partitions, arguments, reuse, "
        "windows) under the debug containers. Judged: normal end and complete output files. Non-trivial: every finished run; distinct: mode, type, dimensions, preprocessor, data kind and size")
MIN_DISTINCT = 100
MODES = ["standard", "standard", "fast", "reduced", "naive", "naivewindow", "plain"]
PRE = ["", "", "kmeans++", "kmeans", "denStream"]
OTHERS = ["P03", "P05", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P19", "P22", "P23"]


def data(rng, n, dims, kind):
    if kind == "one":
        return [[rng.uniform(-5, 5) for _ in range(dims)]]
    if kind == "identical":
        p = [rng.uniform(-5, 5) for _ in range(dims)]
        return [list(p) for _ in range(n)]
    if kind == "huge":
        return [[rng.uniform(-1e9, 1e9) for _ in range(dims)] for _ in range(n)]
    if kind == "tiny":
        return [[rng.uniform(-1e-9, 1e-9) for _ in range(dims)] for _ in range(n)]
    if kind == "zeros":
        return [[0.0] * dims for _ in range(n)]
    return gens.cloud(rng, n, dims, kind)


def gen(rng, tier):
    total = 420 if tier == "quick" else 5000
    kinds = gens.KINDS + ["one", "identical", "huge", "tiny", "zeros"]
    for i in range(total):
        mode = rng.choice(MODES)
        ctype = rng.choice(TYPES)
        dim = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
        kind = kinds[i % len(kinds)]
        dims = rng.choice([1, 2, 2, 3, 4, 12])
        cap = {0: 40, 1: 40, 2: 22, 3: 13, 4: 10, 5: 9, 6: 9}[dim]
        if ctype == "simplexArrayList" and mode in ("standard", "plain"):
            cap = {0: 25, 1: 25, 2: 11, 3: 8, 4: 7, 5: 7, 6: 7}[dim]
        pre = "" if mode.startswith("naive") else rng.choice(PRE)
        if mode.startswith("naive"):
            n = rng.choice([1, 2, 49, 50, 51, 99, 100, 101, 150, 199, 200, 230, 320])
        elif pre == "denStream":
            n = rng.choice([1, 5, 19, 20, 40, 200, 999, 1000, 1001, 1060]) if rng.random() < 0.3 else rng.randint(1, 150)
        elif pre or mode == "reduced":
            n = rng.randint(1, 60)
        else:
            n = rng.randint(1, cap)
        if kind == "sphere" and dims < 3:
            dims = 3
        pts = data(rng, n, dims, kind)
        extra = []
        if mode != "plain":
            extra += [rng.choice(["-m", "--mode"]), mode]
        elif rng.random() < 0.5:
            extra += ["-p", rng.choice(["distMatrix.neighGraph.rips.fastPersistence", "distMatrix.neighGraph.fast", "distMatrix.neighGraph.rips", "distMatrix", "distMatrix.neighGraph"])]
        k = 20
        if pre or mode == "reduced":
            k = rng.choice([1, 2, 3, 5, 8, len(pts), len(pts) + 4])
            k = min(k, cap)
            extra += ["-k", str(k), "-r", rng.choice(["1", "2", "250"])]
        if pre:
            extra += ["-pre", pre]
        if pre == "denStream" and kind != "one" and rng.random() < 0.25:
            # dense start, then points elsewhere: clusters decay, are promoted and removed
            o = rng.uniform(50, 90)
            far = rng.choice([200, 400])
            step = rng.choice([0.0, 0.01, 50.0])
            pts = [[rng.uniform(0, 0.5) for _ in range(dims)] for _ in range(1000)] + [[o + step * a + rng.uniform(0, 0.2) for _ in range(dims)] for a in range(far)]
            extra += ["-l", rng.choice(["0.25", "1", "2", "3"])]
        d = ref.dist_matrix(pts) if len(pts) <= 60 else ref.dist_matrix(rng.sample(pts, 60))
        r = rng.random()
        eps = gens.pick_eps(rng, d)
        if r < 0.06:
            eps = 0.0
        elif r < 0.12:
            eps = 1e6
        if pre == "denStream" and len(pts) > 400:
            # every point a neighbour of every other takes long
            w = sorted(x for a in ref.dist_matrix(rng.sample(pts[:1000], 40)) for x in a if x > 0)
            if w:
                eps = min(eps, w[int(len(w) * rng.choice([0.02, 0.1, 0.25]))])
        # keep whole complexes of many points within reach
        big = mode.startswith("naive") and len(pts) >= 50 or mode == "reduced" or pre == "denStream"
        if big and dim > 1:
            sub = pts[:50] if mode.startswith("naive") else pts
            w = sorted(x for a in ref.dist_matrix(sub[:60])[:60] for x in a if x > 0)
            if w:
                eps = min(eps, w[min(len(w) - 1, int(len(w) * {2: .25, 3: .12, 4: .08}.get(dim, .05)))])
        dbg = rng.random() < 0.35
        extra += rng.choice([["-x", "1"], ["--debug", "1"]]) if dbg else rng.choice([[], ["-x", "0"]])
        if rng.random() < 0.1:
            extra += ["-t", "true", "-z", "true"]
            if ctype == "indSimplexTree":
                # its reduction takes very long on more
                pts = pts[:7]
                if "-k" in extra:
                    extra[extra.index("-k") + 1] = "7"
        if mode == "reduced" and (kind in ("identical", "zeros", "dups", "line") or dim > 2) and len(pts) > cap:
            pts = pts[:cap]
        if len(set(map(tuple, pts))) < len(pts) and len(pts) > 16 and dim > 1:
            pts = pts[:12]        # equal points are all joined at any scale
        out = "out"
        if rng.random() < 0.05:
            extra += ["-o", "console"]
            out = "console"
        fl = "debug" if i % 2 else "asan"
        c = cli_case("c%d" % i, pts, eps, dim, ctype, extra, rng.choice(["repr", "17g", "e", "E", "plus", "sp"]),
                     {"kind": kind, "mode": mode, "pre": pre, "out": out, "nodir": False}, flavour=fl, long=rng.random() < 0.3,
                     mkdirs=("output",) if rng.random() < 0.7 else ())
        yield c
    # a sample of what the other monitors feed the code with, under the debug containers
    per = 25 if tier == "quick" else 250
    for p in OTHERS:
        m = importlib.import_module("checks." + p)
        r2 = random.Random("P17/%s/%d" % (p, rng.randint(0, 1 << 30)))
        cs = [c for c in m.gen(r2, "few" if tier == "quick" else "sample") if c.kind == "probe"]
        light = [c for c in cs if len(c.line) < 60000]
        r2.shuffle(light)
        for c in light[:per]:
            c.id = p + c.id
            c.flavour = "debug"
            c.meta = {"probe": p}
            yield c


def judge(c, o):
    m = c.meta
    if o.status != "ok":
        return Verdict([(o.key, "%s ended with %s\n%s" % (" ".join(c.argv) if c.argv else c.line[:200], o.key, o.stderr[:900]))])
    if "probe" in m:
        return Verdict([], "%s %s" % (m["probe"], c.id), events=len(o.events))
    v = []
    # reduced mode after a preprocessor that found nothing has no pipeline to run
    none = m["mode"] == "reduced" and m["pre"] == "denStream" and "Running Pipeline" not in o.stdout and "Full Data: 0\n" in o.stdout
    if m["out"] != "console" and not none:
        for f in ("out.csv", "out_stats.csv"):
            if f not in o.files:
                v.append(("no-output", "%s was not written (%s)" % (f, " ".join(c.argv))))
        if "out.csv" in o.files and not o.files["out.csv"].startswith("dimension,birth,death\n"):
            v.append(("no-header", "the barcode file starts with %r" % o.files["out.csv"][:40]))
        if "out_stats.csv" in o.files and o.files["out_stats.csv"].count("\n") < 2:
            v.append(("empty-stats", "the statistics file has no row"))
    if "runtime error" in o.stderr or "Sanitizer" in o.stderr:
        v.append(("report", o.stderr[:600]))
    return Verdict(v, "%s %s %d %s %s %d" % (m["mode"], m["ctype"], m["dim"], m["pre"], m["kind"], len(m["pts"])), events=o.stdout.count("\n"))
