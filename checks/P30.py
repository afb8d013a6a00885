import importlib
import random
import re
from lib import gens, ref
from lib.core import Verdict, Case, mat, conf, vec, dvec, hx, esc, unesc

TARGETS = ("probe",)
FLAVOURS = ["tsan", "asan"]
CHUNK = 3
TECHNIQUE = ("runtime monitoring: ThreadSanitizer over concurrent jobs, and a differential monitor of every job's event log (alone in a process, in threads taking turns after every event in a "
             "seeded order, in threads at the same time with injected delays)")
NOTE = "Schedules: the seeded hand-over orders plus what the machine's scheduler and the injected delays give; ThreadSanitizer also sees races that did not change a result."
RULE = ("2 to 6 generated jobs (whole pipelines of every complex type, with and without denStream, windows, reused packets, complexes, readers, streams, writers, argument parsing, kd-trees, DBSCAN, "
        "micro-clusters, set helpers, partitions), of one kind or mixed, some on the same points or queries, run alone, interleaved event by event in one process, and concurrently; the logs of each job must be the same (times aside) and no "
        "race be reported. Non-trivial: at least one hand-over; distinct: jobs and order of hand-overs")
MIN_DISTINCT = 60
POOLS = ["P03", "P05", "P07", "P08", "P09", "P10", "P12", "P13", "P14", "P15", "P16", "P19", "P21", "P22"]


def pipeline(rng, i):
    ctype = rng.choice(["simplexTree", "simplexArrayList", "indSimplexTree"])
    dim = rng.choice([1, 1, 2, 2, 3])
    n = rng.randint(1, {1: 30, 2: 16, 3: 10}[dim] if ctype != "simplexArrayList" else {1: 20, 2: 9, 3: 7}[dim])
    pts = gens.cloud(rng, n, rng.choice([1, 2, 3, 5]), rng.choice([k for k in gens.KINDS if k != "sphere"]))
    eps = gens.pick_eps(rng, ref.dist_matrix(pts))
    c = {"complexType": ctype, "dimensions": dim, "epsilon": "%.17g" % eps, "outputFile": "{d}/log%d" % i, "debug": "0"}
    if rng.random() < 0.2:
        c["pipeline"] = rng.choice(["distMatrix.neighGraph.fast", "distMatrix.neighGraph", "distMatrix"])
    if rng.random() < 0.15:
        c["preprocessor"] = "denStream"
        c["lambda"] = rng.choice(["0.25", "1"])
        pts += [[rng.gauss(0, 0.3) for _ in pts[0]] for _ in range(rng.randint(20, 60))]
    return "pipeline %s %s" % (conf(c), mat(pts)), {}


def kin(rng, n):
    """jobs that have something in common: the same points, scale or queries"""
    k = rng.choice(["pipe", "pipe", "kd", "kd", "dbscan", "den", "complex"])
    dim = rng.choice([1, 2, 3])
    pts = gens.cloud(rng, rng.randint(5, 20 if k == "pipe" else 60), dim, rng.choice(["uniform", "clusters", "grid", "dups"]))
    d = ref.dist_matrix(pts)
    qs = [rng.choice(pts) if rng.random() < 0.5 else [rng.uniform(-3, 9) for _ in range(dim)] for _ in range(8)]
    r = rng.choice([0.5, 1.0, 3.0])
    out = []
    for j in range(n):
        var = rng.choice(["same", "order", "part", "other"])
        p = list(pts)
        if var == "order":
            rng.shuffle(p)
        elif var == "part":
            p = p[:rng.randint(1, len(p))]
        elif var == "other":
            p = [[x + rng.uniform(-1, 1) for x in a] for a in p]
        if k == "pipe":
            t = rng.choice(["simplexTree", "simplexArrayList", "indSimplexTree"])
            c = {"complexType": t, "dimensions": rng.choice([1, 1, 2]) if len(p) <= 12 else 1, "epsilon": "%.17g" % gens.pick_eps(rng, d), "outputFile": "{d}/log%d" % j, "debug": "0"}
            out.append("pipeline %s %s" % (conf(c), mat(p)))
        elif k == "kd":
            q = ["near %s" % dvec(x) if rng.random() < 0.5 else "ball %s %s" % (dvec(x), hx(r)) for x in qs for _ in range(2)]
            out.append("kd 0 %s %d %s" % (mat(p), len(q), " ".join(q)))
        elif k == "dbscan":
            out.append("dbscan %d %s 0 %s" % (rng.choice([2, 3, 4]), hx(r), mat(p)))
        elif k == "complex":
            t = rng.choice(["simplexTree", "simplexTree", "simplexArrayList", "indSimplexTree"])
            dm = ref.dist_matrix(p[:16])
            out.append("complex %s %s %d %d %s %s 0" % (t, hx(gens.pick_eps(rng, d)), 2, 2 if t == "simplexArrayList" else 0, mat([[x if b > a else 0.0 for b, x in enumerate(y)] for a, y in enumerate(dm)]), vec([])))
        else:
            # beyond the first 1000 points micro-clusters are merged, made and pruned
            m = rng.randint(1001, 1300)
            p = [[20.0 * rng.randint(0, 19) + rng.randint(0, 60) / 64.0 if i < 1000 else 1000.0 + 10 * rng.randint(0, 3) + rng.randint(0, 60) / 64.0] for i in range(m)]
            out.append("pre %s 1 %s" % (conf({"preprocessor": "denStream", "epsilon": "0.7", "lambda": rng.choice(["0.25", "1.0"]), "outputFile": "none"}), mat(p)))
    return k, out


def gen(rng, tier):
    total = {"few": 10, "sample": 100, "quick": 420}.get(tier, 4000)
    pool = {}
    for p in POOLS:
        m = importlib.import_module("checks." + p)
        r2 = random.Random("P30/%s/%d" % (p, rng.randint(0, 1 << 30)))
        pool[p] = [c for c in m.gen(r2, "few" if tier == "quick" else "sample") if c.kind == "probe" and len(c.line) < 7000 and not c.wrap and not c.env and "kmeans" not in c.line and "slidingwindow" not in c.line.lower()]
        assert pool[p], p
    for i in range(total):
        same = rng.random() < 0.5
        kind = rng.choice(["pipe", "pipe", "pipe", "pipe"] + POOLS)
        jobs, files, names = [], {}, []
        if i % 5 == 2:
            k, jobs = kin(rng, rng.randint(2, 4))
            yield Case("k%d" % i, "probe", "together %d %d %s" % (rng.randint(0, 1 << 30), len(jobs), " ".join(esc(x) for x in jobs)),
                       meta={"jobs": [x[:300] for x in jobs], "kinds": ["kin " + k] * len(jobs)}, flavour="tsan" if i % 4 else "asan")
            continue
        for j in range(rng.randint(2, 6)):
            k = kind if same else rng.choice(["pipe", "pipe", "pipe", "pipe"] + POOLS)
            if k == "pipe":
                line, fs = pipeline(rng, j)
            else:
                c = rng.choice(pool[k])
                line, fs = c.line, c.files
            # every job has files of its own
            pre = "c%d_%d_" % (i, j)
            jobs.append(line.replace("{d}/", "{d}/" + pre))
            for f, t in fs.items():
                files[pre + f] = t
            names.append(k)
        yield Case("c%d" % i, "probe", "together %d %d %s" % (rng.randint(0, 1 << 30), len(jobs), " ".join(esc(x) for x in jobs)), files=files,
                   meta={"jobs": [x[:300] for x in jobs], "kinds": names}, flavour="tsan" if i % 4 else "asan")


def plain(e):
    if e.startswith("stats "):
        # name,time,size,...: the time differs
        return "stats " + re.sub(r"(?m)^([^,\n]*),[^,\n]*", r"\1,T", unesc(e[6:]))
    return e


def judge(c, o):
    m = c.meta
    if o.status != "ok":
        return Verdict([(o.key, "jobs %s together ended with %s\n%s" % (m["kinds"], o.key, o.stderr[:1500]))])
    logs, cur, turns = {}, None, None
    for e in o.events:
        a = e.split(" ")
        if a[0] in ("alone", "inturn", "threads") and len(a) >= 2:
            cur = logs[a[0], int(a[1])] = []
            if a[0] == "alone" and a[2] != "0":
                return Verdict([("alone", "job %s alone ended with status %s" % (m["jobs"][int(a[1])], a[2]))])
        elif a[0] == "turns":
            turns = a[1:]
        else:
            cur.append(plain(e))
    v = []
    n = 0
    for j in range(len(m["jobs"])):
        one = logs["alone", j]
        n += len(one)
        for mode, text in (("inturn", "taking turns with"), ("threads", "at the same time as")):
            if logs[mode, j] != one:
                k = next((k for k, (x, y) in enumerate(zip(one, logs[mode, j])) if x != y), min(len(one), len(logs[mode, j])))
                v.append((mode, "job %s, %s %d others (%s): event %d is %r, alone it is %r" % (
                    m["jobs"][j], text, len(m["jobs"]) - 1, m["kinds"], k, (logs[mode, j][k:k + 1] or [None])[0], (one[k:k + 1] or [None])[0])))
    return Verdict(v[:2], "%s %s" % (",".join(m["kinds"]), turns[1]) if int(turns[0]) > 1 else None, evals=2 * n, events=len(o.events))
