import hashlib
import os
import re
import subprocess
from lib import build, gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *

TECHNIQUE = "runtime monitoring: log of interposed library calls, directory snapshots and differential runs, alone and several at a time"
TARGETS = ("LHF",)
FLAVOURS = ["plain", "asan"]
CHUNK = 6
RULE = ("runs of all modes in directories full of other files (with names like those of inputs, results, state files and temporary files), with a preloaded library that logs every call that "
        "creates, writes, renames or removes a file or starts a process, and with a snapshot of the directory before and after; and groups of runs at the same time in one directory under "
        "different output names, compared with the same runs one by one. Non-trivial: at least one result file; distinct: the calls seen and results, without times")
MIN_DISTINCT = 60
SRC = os.path.join(build.VERIF, "harness", "trace.c")
PAR = os.path.join(build.VERIF, "harness", "par.py")
LOCK = ["out.tmp", "out.csv.tmp", "out.csv.bak", "out.csv~", ".out.csv.swp", "tmp.csv", "temp.csv", "tmp", "temp", "output.csv", "output_stats.csv", "results.csv", "data.csv", "in_stats.csv", "in.csv.bak",
        "in.mat", "out.mat", "out_bettis.csv", "stats.csv", "bettis.csv", "barcodes.csv", "log.txt", "debug.log", "lhf.log", "out.log", "core", "cache.bin", "console.csv", "console_stats.csv", "out_log",
        "output/DistMatrix_output.csv", "output/neighGraph_output.csv", "output/FastPersistence_bettis_output.csv", "output/k-means++_label_output.csv", "output/k-means++_centroid_output.csv",
        "output/DenStream_label_output.csv", "output/DenStream_centroid_output.csv", "output/ripsPipe_output.csv", "output/tArray.csv", "output/notes.txt", "output/old_label_output.csv", "output/out.csv", "output/readme", "output/complexStats.csv", "out2.csv", "out_0.csv", "1.csv", "config.txt", "output.txt"]
STATES = ["DistMatrix_output.csv", "neighGraph_output.csv", "ripsPipe_output.csv", "FastPersistence_bettis_output.csv", "FastPersistence_output.csv", "tArray.csv",
          "k-means++_centroid_output.csv", "k-means++_label_output.csv", "DenStream_centroid_output.csv", "DenStream_label_output.csv"]
EXTRA_FILE = None


def tracer():
    """Builds the preloaded library (no part of the code under test)."""
    key = hashlib.sha256(open(SRC, "rb").read()).hexdigest()[:16]
    so = os.path.join(build.BUILD, "trace-%s.so" % key)
    if not os.path.exists(so):
        os.makedirs(build.BUILD, exist_ok=True)
        tmp = so + ".%d.tmp" % os.getpid()
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", tmp, SRC, "-ldl"], check=True)
        os.rename(tmp, so)
    return so


def pick(rng, n, dim):
    for _ in range(30):
        pts = gens.cloud(rng, n, rng.choice([1, 2, 2, 3]), rng.choice(["uniform", "gauss", "clusters", "grid", "circle", "jitter"]))[:n]
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d)
        if eps > 0 and not ref.near_eps(d, eps):
            return pts, eps
    return [[0.0], [1.0]], 2.0


def clutter(rng):
    fs = {}
    for n in rng.sample(LOCK, rng.randint(10, len(LOCK))):
        fs[n] = "kept %s\n" % n + "\x00\x01" * rng.randint(0, 40)
    return fs


def gen(rng, tier):
    so = tracer()
    total = {"few": 36, "sample": 200, "quick": 500}.get(tier, 4000)
    for i in range(total):
        if i % 4 == 3:
            yield together(rng, i)
            continue
        dim = rng.choice([1, 1, 2, 3])
        t = TYPES[i % 3]
        pts, eps = pick(rng, rng.randint(1, {1: 22, 2: 13, 3: 9}[dim]), dim)
        extra, mode = [], rng.choice(["plain", "plain", "stages", "kmeans", "denStream", "reduced", "naive", "sliding", "faulty"])
        if mode == "stages":
            extra = ["-p", rng.choice(["distMatrix", "distMatrix.neighGraph", "distMatrix.neighGraph.rips", "distMatrix.neighGraph.fast"])]
        elif mode == "kmeans":
            extra = ["-pre", "kmeans++", "-k", str(rng.randint(1, 4))]
        elif mode == "denStream":
            extra = ["-pre", "denStream"]
        elif mode == "reduced":
            extra = ["-m", "reduced", "-k", str(rng.randint(1, 3))]
            t = "simplexTree"
        elif mode in ("naive", "sliding"):
            pts = gens.cloud(rng, rng.choice([20, 60, 100, 101, 130] if mode == "naive" else [20, 60, 150, 199]), 2, "uniform")
            dim, eps, t = 1, 2.0, "simplexTree"
            extra = ["-m", mode]
        elif mode == "faulty":
            extra = rng.choice([["-p", "distMatrix.nosuch"], ["-c", "noSuchComplex"], ["-pre", "nosuch"], ["-m", "nosuch"], ["--nosuch", "1"], ["-p", ""], ["-p", "x"], []])
        out = rng.choice(["out", "out", "out", "sub/out", "console"])
        lvl = rng.choice(["0", "0", "1", "2"])
        if lvl != "0":
            extra = extra + ["-x", lvl]
        r = cli_case("c%d" % i, pts, eps, dim, t, extra, "repr", flavour="plain", mkdirs=rng.choice([("output", "sub"), ("output", "sub", "temporary", "cache"), ("sub",)]))
        r.argv = [out if x == "out" else x for x in r.argv]
        inp = rng.choice(["in.csv", "in.csv", "sub/in.csv", "out.txt", "input", "output.csv.in"])
        text = r.files.pop("in.csv")
        r.files = {k: v for k, v in r.files.items() if out == "out"}
        r.argv = [inp if x == "in.csv" else x for x in r.argv]
        for k, x in clutter(rng).items():
            if k.startswith("output/") and "output" not in r.mkdirs:
                continue
            if k in r.files or (k.startswith("output/complexStats") and mode in ("naive", "sliding")) or k in (inp, out, out + ".csv", out + "_stats.csv"):
                continue
            r.files[k] = x
        r.files[inp] = rng.choice([text, text, text.rstrip("\n"), text.replace("\n", "\r\n"), text + "\n\n"])
        if mode == "faulty" and extra[:1] == []:
            r.argv = ["missing.csv" if x == inp else x for x in r.argv]
        r.env = {"LD_PRELOAD": so, "LHFV_TRACE": "trace.log", "TMPDIR": "/tmp", "HOME": "/root"}
        r.meta.update({"mode": mode, "out": out, "lvl": lvl, "inp": inp, "case": "one"})
        yield r


def together(rng, i):
    n = rng.choice([2, 3, 4, 6])
    dim = rng.choice([1, 1, 2])
    t = TYPES[i % 3]
    naive = rng.random() < 0.15
    same = rng.random() < 0.3
    sets = []
    eps = 0.0
    for k in range(n):
        if same and sets:
            pts = sets[0]
        elif naive:
            pts, eps = gens.cloud(rng, rng.choice([20, 60, 100, 130]), 2, "uniform"), 2.0
        else:
            nd = len(sets[0][0]) if sets else 2
            pts, e = pick(rng, rng.choice([1, 5, 15, 22]) if dim == 1 else rng.randint(1, 12), dim)
            eps = eps or e
        sets.append(pts)
    extra = ["-m", "naive"] if naive else rng.choice([[], [], ["-p", "distMatrix.neighGraph.rips.fastPersistence"]])
    if naive:
        dim, t = 1, "simplexTree"
    fl = rng.choice(["plain", "plain", "asan"])
    runs = []
    for k, pts in enumerate(sets):
        runs.append(cli_case("s%d" % k, pts, eps, dim, t, extra, "repr", flavour=fl))
    p = cli_case("together", sets[0], eps, dim, t, extra, "repr", flavour=fl)
    name = rng.choice(["out@", "out@", "@out", "out_@", "o@/out"])
    p.argv = [{"in.csv": "in@.csv", "out": name}.get(x, x) for x in p.argv]
    p.files = {"in%d.csv" % k: gens.csv(pts, "repr") for k, pts in enumerate(sets)}
    if same:
        p.argv = ["in0.csv" if x == "in@.csv" else x for x in p.argv]
    if name == "o@/out":
        p.mkdirs = ["o%d" % k for k in range(n)]
    p.wrap = ["python3", PAR, str(n), str(rng.choice([1, 2, 4])), rng.choice(["0", "0", "0.002"])]
    return Case("c%d" % i, "multi", runs=runs + [p], meta={"case": "together", "n": n, "name": name})


def stats(t):
    return sorted(",".join(a[:1] + a[2:]) for a in (r.split(",") for r in (t or "").split("\n")))


def judge(c, o):
    m = c.meta
    v = []
    if m["case"] == "together":
        for k, x in enumerate(o.subs):
            if x.status != "ok":
                v.append((x.key, "%s: run %s ended with %s: %s" % (c.id, "on its own" if k < m["n"] else "of several at a time", x.key, x.stderr[:300])))
                return Verdict(v)
        p = o.subs[-1]
        want = set()
        for k in range(m["n"]):
            b = m["name"].replace("@", str(k))
            want |= {b, b + ".csv", b + "_stats.csv"}
            s = o.subs[k].files
            if "out.csv" in s and p.files.get(b + ".csv") != s["out.csv"]:
                v.append(("disturbed", "%s: %s.csv written by %d runs at a time is %r, alone %r" % (c.id, b, m["n"], (p.files.get(b + ".csv") or "nothing")[:200], s["out.csv"][:200])))
            if "out_stats.csv" in s and stats(p.files.get(b + "_stats.csv")) != stats(s["out_stats.csv"]):
                v.append(("disturbed", "%s: %s_stats.csv %r, alone %r" % (c.id, b, p.files.get(b + "_stats.csv"), s["out_stats.csv"])))
        left = sorted(f for f in p.files if f not in want)
        if left:
            v.append(("left", "%s: %d runs at a time leave %s" % (c.id, m["n"], left[:6])))
        sig = "together %d " % m["n"] + hashlib.sha256("".join(x.files.get("out.csv", "") for x in o.subs[:-1]).encode("utf-8", "surrogateescape")).hexdigest()[:10]
        return Verdict(v, sig, evals=2 * m["n"], events=m["n"] * 2)
    if o.status != "ok":
        v.append((o.key, "%s: ended with %s: %s" % (c.id, o.key, o.stderr[:300])))
        return Verdict(v)
    out = m["out"]
    ok = {"trace.log"}
    for s in STATES:
        # state files only of stages at a raised level and of the preprocessor of this run
        if m["mode"] not in ("kmeans", "reduced", "faulty") if s[:2] == "k-" else m["mode"] not in ("denStream", "faulty") if s[:2] == "De" else m["lvl"] == "0":
            continue
        ok.add("output/" + s)
    ok |= {out} if out != "console" else set()
    ok |= {out + ".csv", out + "_stats.csv"} if out != "console" else set()
    if m["mode"] in ("naive", "sliding"):
        ok |= {"output/complexStats.csv", "console", "slidingWindow", ""}
        ok |= {f for f in o.files if re.match(r"output/\w+_\d+_output\.csv$", f)}
    for f, t in sorted(o.files.items()):
        if t is None:
            v.append(("removed", "%s: %s was removed (mode %s, output %s)" % (c.id, f, m["mode"], out)))
        elif f in c.files and f not in ok:
            v.append(("changed", "%s: %s was there before and now holds %r (mode %s, output %s)" % (c.id, f, t[:60], m["mode"], out)))
        elif f not in ok:
            v.append(("left", "%s: leaves a file %s behind: %r (mode %s, output %s)" % (c.id, f, t[:60], m["mode"], out)))
    if m["inp"] in o.files:
        v.append(("input", "%s: the input file %s has changed" % (c.id, m["inp"])))
    n = 0
    seen = set()
    for l in o.files.get("trace.log", "").split("\n"):
        if not l:
            continue
        n += 1
        op, _, path = l.partition(" ")
        k = path.find("/cli/")
        inside = "/lhfv-" in path and k > 0
        rel = os.path.normpath(path[k + 5:]) if inside else path
        seen.add((op, rel))
        if op in ("process", "socket", "chmod", "chdir", "link"):
            v.append(("reach-" + op, "%s: %s %s" % (c.id, op, rel)))
        elif not inside or rel.startswith(".."):
            if path not in ("/dev/null", "/dev/tty", "/dev/stdout", "/dev/stderr"):
                v.append(("outside", "%s: %s %s" % (c.id, op, path)))
        elif op == "write" and rel == m["inp"]:
            v.append(("input", "%s: the input file is opened for writing" % c.id))
        elif op in ("remove", "rename") and rel in c.files and rel not in ok:
            v.append(("removed", "%s: %s %s" % (c.id, op, rel)))
        elif op == "mkdir" and rel != "output":
            v.append(("left", "%s: makes a directory %s" % (c.id, rel)))
    sig = "%s %s %s" % (m["mode"], m["lvl"], sorted(seen)) if out + ".csv" in o.files else None
    return Verdict(v[:4], sig, evals=1 + len(o.files), events=n)
