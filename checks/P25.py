import re
from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *
from checks.P14 import stream

TARGETS = ("LHF",)
CHUNK = 5
RULE = ("the same request is run at debug level 0 and at higher levels (with and without the directory for state files, into a log with older content, to the console, all complex types, stage "
        "lists, preprocessors and modes). Barcode and statistics files of the runs are compared, every state file is compared with recomputed distances, enumerated simplices, the barcode "
        "text or the clustering, and the log with the statistics rows. Non-trivial: state files of at least two stages checked; distinct: their contents in numbers")
MIN_DISTINCT = 80
VR = "distMatrix.neighGraph.rips.fastPersistence"
NAMES = {"distMatrix": "DistMatrix", "neighGraph": "neighGraph", "rips": "ripsPipe", "fastPersistence": "FastPersistence", "fast": "FastPersistence"}
STATES = ["DistMatrix_output.csv", "neighGraph_output.csv", "ripsPipe_output.csv", "FastPersistence_bettis_output.csv",
          "k-means++_centroid_output.csv", "k-means++_label_output.csv", "DenStream_centroid_output.csv", "DenStream_label_output.csv"]
OLD = "an older run's log\n[DistMatrix]:\tkept\n"


def gen(rng, tier):
    total = {"few": 50, "sample": 300, "quick": 600}.get(tier, 4000)
    for i in range(total):
        dim = rng.choice([1, 1, 2, 2, 3, 4])
        ctype = TYPES[i % 3]
        cap = {1: 24, 2: 14, 3: 10, 4: 8}[dim] - (3 if ctype == "simplexArrayList" else 0)
        pts = gens.cloud(rng, rng.randint(1, cap), rng.choice([1, 2, 3]), gens.KINDS[i % len(gens.KINDS)])[:cap]
        stages, extra, mode = VR, [], "plain"
        r = rng.random()
        if i % 25 == 4:
            # numbers that need all six digits, tables with many columns
            pts = gens.cloud(rng, rng.choice([60, 101, 130, 260]), 2, rng.choice(["uniform", "gauss", "bigscale"]))
            dim = 1
            ctype = rng.choice(TYPES[:3:2])
        elif r < 0.25:
            stages = rng.choice(["distMatrix", "distMatrix.neighGraph", "distMatrix.neighGraph.rips", "distMatrix.neighGraph.fast", "distMatrix.distMatrix.neighGraph.rips.rips.fastPersistence"])
            extra = ["-p", stages]
        elif r < 0.4:
            mode = "denStream"
            if rng.random() < 0.5:
                pts = stream(rng, rng.choice([1, 12, 60, 150, 300]), rng.choice(["plain", "noise"]))
            extra = ["-pre", "denStream"]
        elif r < 0.6:
            mode = "kmeans"
            extra = ["-pre", "kmeans++", "-k", str(rng.randint(1, max(1, min(cap, 10))))]
            if rng.random() < 0.3:
                pts = pts * rng.randint(2, 9)
        elif r < 0.75:
            mode = "reduced"
            extra = ["-m", "reduced", "-k", str(rng.randint(1, 3))]
            ctype = "simplexTree"
        elif r < 0.8:
            mode = "naive"
            stages = "naivewindow"
            pts = gens.cloud(rng, rng.choice([20, 50, 51, 99, 100, 101, 130]), 2, "uniform")
            dim = 1
            extra = ["-m", "naive"]
            ctype = "simplexTree"
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d)
        if mode == "naive":
            eps = 2.0
        if len(pts) > 50 and mode == "plain":
            w = sorted(x for k, r in enumerate(d) for x in r[:k])
            eps = w[len(pts) * 2] * 1.0000123 + 1e-9
        if ref.near_eps(d, eps):
            continue
        meta = {"mode": mode, "stages": stages, "eps": eps, "pts": pts, "dim": dim, "ctype": ctype}
        runs, what = [], []
        for k, (lvl, dirs, old, out) in enumerate([("0", ("output",), False, "out"), (rng.choice(["1", "1", "2", "3"]), ("output",), False, "out"), ("1", (), False, "out"),
                                                   (rng.choice(["0", "1"]), ("output",), True, "out"), (rng.choice(["0", "1", "false"]), ("output",), False, "console")]):
            if k > 1 and rng.random() < 0.6:
                continue
            a = ["-x", lvl] if lvl != "0" or rng.random() < 0.5 else []
            if rng.random() < 0.3:
                a = ["--debug", lvl]
            r = cli_case("r%d" % k, pts, eps, dim, ctype, extra + a, "repr", mkdirs=dirs)
            r.argv = [out if x == "out" else x for x in r.argv]
            if old:
                r.files["out"] = OLD
            if dirs and i % 3 == 1:
                # state files of an older run are replaced, not continued
                for f in STATES:
                    r.files["output/" + f] = "7,7,\n" * (40 if i % 2 else 4000)
            runs.append(r)
            what.append({"lvl": lvl, "dirs": bool(dirs), "old": old, "out": out})
        meta["what"] = what
        yield Case("c%d" % i, "multi", runs=runs, meta=meta)


def rows(t):
    return [[float(x) for x in l.rstrip(",").split(",") if x != ""] for l in t.split("\n") if l]


def close(a, b):
    """b printed with six significant digits"""
    return abs(a - b) <= 6e-6 * abs(b) + 1e-300


def simplex_file(t):
    out = []
    for l in t.split("\n"):
        if l:
            *s, w = l.split(",")
            out.append((tuple(int(x) for x in s), float(w)))
    return out


def cmp_simplices(name, t, lv, v):
    """listing t against enumerated levels lv (list of {tuple: weight})"""
    want = {}
    for l in lv:
        want.update(l)
    try:
        got = simplex_file(t)
    except ValueError as e:
        v.append((name, "%s is malformed: %s" % (name, e)))
        return
    seen = set()
    for s, w in got:
        s = tuple(sorted(s))
        if s in seen or s not in want:
            v.append((name, "%s lists %s %s" % (name, s, "twice" if s in seen else "which is no simplex")))
            return
        seen.add(s)
        if not close(w, want[s]):
            v.append((name, "%s gives %s the weight %r, exactly %r" % (name, s, w, want[s])))
            return
    if len(seen) != len(want):
        v.append((name, "%s lists %d of %d simplices, e.g. not %s" % (name, len(seen), len(want), sorted(set(want) - seen)[:3])))


def stat_rows(x):
    return [r.split(",") for r in x.files.get("out_stats.csv", "").split("\n")[1:] if r]


def norm(t):
    """statistics without the times"""
    return [",".join(a[:1] + a[2:]) for a in (r.split(",") for r in t.split("\n"))]


def judge(c, o):
    m = c.meta
    v = []
    pts, eps, dim, ctype, mode = m["pts"], m["eps"], m["dim"], m["ctype"], m["mode"]
    stages = m["stages"].split(".")
    n = len(pts)
    base = o.subs[0]
    events = evals = 0
    sig = []
    d = ref.dist_matrix(pts)
    full = None
    for w, x, run in zip(m["what"], o.subs, c.runs):
        tag = "%s -x %s%s%s" % (" ".join(run.argv), w["lvl"], "" if w["dirs"] else " (no output directory)", " (log exists)" if w["old"] else "")
        if x.status != "ok":
            return Verdict([(x.key, "%s ended with %s\n%s" % (tag, x.key, x.stderr[:600]))])
        on = w["lvl"] not in ("0", "false")
        files = {k: t for k, t in x.files.items() if k.startswith("output/")}
        for k in [k for k, t in files.items() if t is None]:
            v.append(("state-removed", "%s: removed %s" % (tag, k)))
            del files[k]
        if w["out"] == "console":
            for f in ("out.csv", "out_stats.csv", "console.csv", "console_stats.csv", "console"):
                if f in x.files:
                    v.append(("console-file", "%s: wrote %s" % (tag, f)))
            log = x.stdout
        else:
            if "out.csv" not in x.files or "out_stats.csv" not in x.files:
                return Verdict(v + [("missing", "%s: no barcode or statistics file" % tag)])
            # the results are the same whatever the level (clusterings are seeded at random)
            if mode not in ("kmeans", "reduced"):
                if x.files["out.csv"] != base.files["out.csv"]:
                    v.append(("barcode-differs", "%s: barcode %r, at level 0 %r" % (tag, x.files["out.csv"][:300], base.files["out.csv"][:300])))
                if norm(x.files["out_stats.csv"]) != norm(base.files["out_stats.csv"]):
                    v.append(("stats-differ", "%s: statistics %r, at level 0 %r" % (tag, norm(x.files["out_stats.csv"]), norm(base.files["out_stats.csv"]))))
            log = x.files.get("out")
            if w["old"]:
                if not (log or "").startswith(OLD):
                    v.append(("log-kept", "%s: the log that existed became %r" % (tag, (log or "")[:200])))
                    log = None
                else:
                    log = log[len(OLD):]
        evals += 2
        # the log
        nruns = len(re.findall(r"Running Pipeline with : \d+ vectors", x.stdout)) if mode == "reduced" else 1
        if mode != "naive" and log is not None:
            ex = re.findall(r"^\[(\w+)\]:\t+Pipeline (\w+) executed in (\d+\.\d{6}) seconds \(physical time\)$", log, re.M)
            sz = re.findall(r"^\[(\w+)\]:\t+Data size: (\d+\.\d{6}) (B|KB|MB|GB)$", log, re.M)
            names = [NAMES[s] for s in stages] * nruns
            if [a[0] for a in ex] != names or [a[1] for a in ex] != names:
                v.append(("log-stages", "%s: the log records %s, run were %s" % (tag, [a[:2] for a in ex][:12], names[:12])))
            elif [a[0] for a in sz] != names:
                v.append(("log-sizes", "%s: the log gives sizes for %s, run were %s" % (tag, [a[0] for a in sz][:12], names[:12])))
            elif w["out"] != "console":
                st = [r for r in stat_rows(x) if len(r) == 6]
                if [[r[0], r[1], r[2], r[3]] for r in st] != [[a[0], a[2], b[1], b[2]] for a, b in zip(ex, sz)]:
                    v.append(("log-values", "%s: statistics %s, log %s %s" % (tag, st[:4], ex[:4], sz[:4])))
            dbg = re.findall(r"^\[DEBUG\]\t\[(\w+)\]:\tConfigured with parameters \{(.*)$", log, re.M)
            cfg = [a for a in dbg if a[0] in ("distMatrixPipe", "neighGraphPipe", "ripsPipe", "fastPersistence")]
            if not on and "[DEBUG]" in log:
                v.append(("debug-off", "%s: debug messages at level %s" % (tag, w["lvl"])))
            if on:
                if [a[0].replace("Pipe", "") for a in cfg] != ["fastPersistence" if s == "fast" else s for s in stages] * nruns:
                    v.append(("debug-config", "%s: configuration messages of %s" % (tag, [a[0] for a in cfg][:8])))
                for a, t in cfg:
                    f = dict(re.findall(r"(\w+): ([^,}\s]+)", t))
                    if f.get("eps", "%.17g" % eps) != "%.17g" % eps or f.get("dim", str(dim)) != str(dim) or (a != "ripsPipe" and "eps" not in f) or (a != "distMatrixPipe" and "dim" not in f):
                        v.append(("debug-values", "%s: %s says %r" % (tag, a, t[:200])))
            events += len(ex) + len(sz) + len(dbg)
            evals += 2 * len(names)
        # state files
        if not w["dirs"]:
            if files:
                v.append(("files", "%s: %s" % (tag, sorted(files)[:4])))
            continue
        pre = {"kmeans": "k-means++", "reduced": "k-means++", "denStream": "DenStream"}.get(mode)
        if pre:
            cents = rows(files.get("output/%s_centroid_output.csv" % pre, ""))
            if "output/%s_centroid_output.csv" % pre not in files or "output/%s_label_output.csv" % pre not in files:
                v.append(("pre-files", "%s: preprocessor files missing, there are %s" % (tag, sorted(files))))
                continue
            if pre == "k-means++":
                lab = [int(a) for a in files["output/%s_label_output.csv" % pre].split()]
                if len(lab) != n or len(cents) == 0 or max(lab) >= len(cents):
                    v.append(("pre-labels", "%s: %d labels (highest %s) for %d points and %d representatives" % (tag, len(lab), max(lab or [-1]), n, len(cents))))
                    continue
                sc = 1 + max(abs(a) for p in pts for a in p)
                for k, ce in enumerate(cents):
                    mem = [p for p, l in zip(pts, lab) if l == k]
                    if mem and ref.dist(ce, [sum(a) / len(mem) for a in zip(*mem)]) > 2e-6 * len(ce) + 1e-9 * sc:
                        v.append(("pre-mean", "%s: representative %d is written as %s, which is not the mean of its points" % (tag, k, ce)))
                        break
            if w["out"] == "out":
                nb = x.files["out.csv"].count("\n0,")
                if stages[-1].startswith("fast") and nb != len(cents):
                    v.append(("pre-count", "%s: %d representatives written, the barcode is of %d" % (tag, len(cents), nb)))
            evals += len(cents)
        else:
            cents = None
        known = {"output/%s_%s_output.csv" % (pre, k) for k in ("centroid", "label")} if pre else set()
        if not on:
            if mode != "naive" and set(files) - known:
                v.append(("level0-files", "%s: state files at level 0: %s" % (tag, sorted(set(files) - known))))
            continue
        if mode == "naive":
            continue
        need = {"output/%s_output.csv" % NAMES[s] for s in stages if s in ("distMatrix", "neighGraph")} | ({"output/FastPersistence_bettis_output.csv"} if stages[-1].startswith("fast") else set())
        if "rips" in stages and ctype == "simplexArrayList":
            need.add("output/ripsPipe_output.csv")
        if need - set(files):
            v.append(("state-missing", "%s: missing %s" % (tag, sorted(need - set(files)))))
            continue
        if "output/FastPersistence_bettis_output.csv" in files and w["out"] == "out":
            if files["output/FastPersistence_bettis_output.csv"].split() != x.files["out.csv"].split()[1:]:
                v.append(("bettis", "%s: barcode file %r, written as state %r" % (tag, x.files["out.csv"][:200], files["output/FastPersistence_bettis_output.csv"][:200])))
        D, P, sl = d, n, 0.0
        if pre:
            # representatives as written, to six decimals
            D, P, sl = ref.dist_matrix(cents), len(cents), 2e-6 * (1 + len(cents[0]) if cents else 1)
        t = rows(files["output/DistMatrix_output.csv"])
        bad = None
        if len(t) != P or any(len(r) != P for r in t):
            bad = "it has %d rows of %s entries for %d points" % (len(t), sorted({len(r) for r in t})[:4], P)
        else:
            for i in range(P):
                for j in range(i + 1, P):
                    if not (close(t[i][j], D[i][j]) or abs(t[i][j] - D[i][j]) <= sl + 6e-6 * D[i][j]):
                        bad = "entry %d,%d is %r, the distance %r" % (i, j, t[i][j], D[i][j])
        if bad:
            v.append(("table", "%s: the table written: %s" % (tag, bad)))
        evals += P * (P - 1) // 2
        if pre and ref.near_eps(D, eps, 1e-5):
            continue
        if not pre and "neighGraph" in stages:
            if full is None:
                full = ref.rips(d, eps, max(dim, 1) + 1, ctype == "simplexArrayList")
            top = 1 if ctype == "simplexArrayList" else dim
            t = files["output/neighGraph_output.csv"]
            cmp_simplices("neighGraph_output.csv", t, full[1:2] if ctype == "simplexArrayList" else full[:dim + 1], v)
            if "output/ripsPipe_output.csv" in files:
                # listing more dimensions than asked for is for the expansion stage to decide; repeated expansion goes on
                cmp_simplices("ripsPipe_output.csv", files["output/ripsPipe_output.csv"], full[:dim + 1], v)
            evals += sum(map(len, full))
            sig.append("%s %s %s" % (ctype, stages, [len(l) for l in full]))
        elif pre:
            sig.append("%s %d %s" % (pre, len(cents), sorted(x.files["out.csv"].split())[-2:] if w["out"] == "out" else ""))
        events += sum(t.count("\n") for t in files.values())
    return Verdict(v, sig[0] if sig else None, evals, events=events)
