"""Helpers of the demonstrations: run ./_build/LHFmain/LHF (cwd: the repository)
in a scratch directory and compute the expected barcode independently."""
import itertools, math, os, shutil, subprocess, sys, tempfile

EXE = os.path.abspath("_build/LHFmain/LHF")


class Out:
    pass


def run(points, *args, text=None, env=None, files=None):
    d = tempfile.mkdtemp()
    try:
        os.mkdir(os.path.join(d, "output"))
        with open(os.path.join(d, "in.csv"), "w", newline="") as f:
            f.write(text if text is not None else
                    "".join(",".join(repr(float(x)) for x in p) + "\n" for p in points))
        p = subprocess.run([EXE, "-i", "in.csv", "-o", "res"] + [str(a) for a in args], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100,
                           env=dict(os.environ, **(env or {})))
        o = Out()
        o.rc = p.returncode
        o.text = p.stdout.decode(errors="replace")
        o.raw = o.stats = None
        for k, n in (("raw", "res.csv"), ("stats", "res_stats.csv")):
            q = os.path.join(d, n)
            if os.path.exists(q):
                setattr(o, k, open(q).read())
        o.bars = sorted(tuple(float(x) for x in l.split(","))
                        for l in (o.raw or "").splitlines()[1:])
        o.files = {n: open(os.path.join(d, "output", n)).read() for n in os.listdir(os.path.join(d, "output"))}
        return o
    finally:
        shutil.rmtree(d)


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def rips(points, eps, d):
    n = len(points)
    out = []
    for k in range(1, d + 2):
        for s in itertools.combinations(range(n), k):
            w = max([dist(points[a], points[b]) for a, b in itertools.combinations(s, 2)] or [0.0])
            if w < eps:
                out.append((w, k, s))
    return sorted(out)


def barcode(points, eps, d):
    """Intervals of dimension 0 .. d-1 (dimension 0 with its zero-length ones)."""
    S = rips(points, eps, d)
    idx = {s: i for i, (_, _, s) in enumerate(S)}
    low, paired, bars = {}, set(), []
    for j, (w, k, s) in enumerate(S):
        col = {idx[f] for f in itertools.combinations(s, k - 1)} if k > 1 else set()
        while col and max(col) in low:
            col ^= low[max(col)]
        if col:
            i = max(col)
            low[i] = col
            paired |= {i, j}
            bars.append((S[i][1] - 1, S[i][0], w))
    for j, (w, k, s) in enumerate(S):
        if j not in paired:
            bars.append((k - 1, w, eps))
    dim0 = sorted(b for b in bars if b[0] == 0)
    return dim0 + sorted(b for b in bars if 0 < b[0] < max(d, 1) and b[1] != b[2])


def same(a, b, tol=2e-6):
    a, b = sorted(a), sorted(b)
    if len(a) != len(b):
        return False
    # rounding may order equal intervals differently: greedy matching
    b = list(b)
    for x in a:
        for i, y in enumerate(b):
            if x[0] == y[0] and abs(x[1] - y[1]) <= tol and abs(x[2] - y[2]) <= tol:
                del b[i]
                break
        else:
            return False
    return True


def need(cond, msg):
    if not cond:
        print("DEMO FAILED:", msg)
        sys.exit(1)


def cloud(n, dim, seed, scale=1.0):
    import random
    r = random.Random(seed)
    return [tuple(round(r.uniform(0, scale), 4) for _ in range(dim)) for _ in range(n)]


def need_barcode(points, eps, d, *args):
    o = run(points, "-e", eps, "-d", d, *args)
    need(o.rc == 0, "exit status %s" % o.rc)
    e = barcode(points, eps, d)
    need(same(o.bars, e), "barcode differs: got %d, expected %d intervals" % (len(o.bars), len(e)))
