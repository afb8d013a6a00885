import importlib
import random
from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *

FLAVOURS = ["plain"]
CHUNK = 4
TECHNIQUE = "runtime monitoring: repeated runs under varied memory contents and environments compared byte for byte; valgrind memcheck for dependence on uninitialised memory"
NOTE = "Sees dependence on memory contents that these runs and memcheck's bit-level tracking can observe; randomised preprocessing (kmeans++) is excluded by the statement."
RULE = ("each generated input (every complex type, dimensions 1 to 4, stage lists, denStream, many equal weights) is run three to five times by an uninstrumented executable with freshly "
        "allocated and freed memory filled with different bytes (MALLOC_PERTURB_), another heap layout, environment size, directory and output name; barcode files have to agree byte for byte and "
        "statistics up to the times. A part of the inputs and a sample of the other monitors' cases additionally run under valgrind memcheck, where a jump, address or output that depends on "
        "uninitialised memory is an error. Non-trivial: at least two barcode lines; distinct: barcode file")
MIN_DISTINCT = 60
VG = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=25"]
OTHERS = ["P03", "P05", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P19"]


def gen(rng, tier):
    total, vg = (130, 16) if tier == "quick" else (2000, 200)
    for i in range(total):
        kind = (["gridset", "grid", "dups"] + gens.KINDS)[i % (len(gens.KINDS) + 3)]
        dim = rng.choice([1, 2, 2, 3, 4])
        ctype = rng.choice(TYPES)
        cap = {1: 25, 2: 16, 3: 11, 4: 9}[dim]
        if ctype == "simplexArrayList":
            cap = {1: 14, 2: 9, 3: 8, 4: 7}[dim]
        pts = gens.cloud(rng, rng.randint(2, cap), rng.choice([1, 2, 3]), kind)[:cap]
        eps = gens.pick_eps(rng, ref.dist_matrix(pts))
        extra = rng.choice([[], ["-m", "fast"], ["-p", "distMatrix.neighGraph.fast"], ["-p", "distMatrix.neighGraph.rips.fastPersistence"]])
        if rng.random() < 0.2:
            pts = [[x + rng.gauss(0, .02) for x in p] for p in pts for _ in range(rng.randint(1, 8))]
            extra = ["-pre", "denStream"]
            eps = max(eps, 0.3)
        if rng.random() < 0.3:
            extra = extra + ["-x", "1"]
        runs = []
        mem = i < vg
        for k in range(3 if tier == "quick" else 5):
            env = [None, {"MALLOC_PERTURB_": "255", "PAD": "x" * rng.randint(1, 5000)}, {"MALLOC_PERTURB_": str(rng.randint(1, 254)), "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"},
                   {"MALLOC_PERTURB_": str(rng.randint(1, 254)), "MALLOC_TOP_PAD_": "100000", "TZ": "Asia/Tokyo"}, {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=3", "PAD": "y" * 20000}][k]
            r = cli_case("c%dr%d" % (i, k), pts, eps, dim, ctype, extra, flavour="plain")
            r.env = env
            r.mkdirs = ("output",) if k % 2 else ()
            runs.append(r)
        if mem:
            r = cli_case("c%dv" % i, pts[:40 if extra[:1] == ["-pre"] else 10], eps, dim, ctype, extra, flavour="plain", timeout=300)
            r.wrap = VG
            runs.append(r)
        yield Case("c%d" % i, "multi", runs=runs, meta={"mem": mem, "ctype": ctype, "dim": dim}, flavour="plain")
    per = 6 if tier == "quick" else 60
    for p in OTHERS:
        m = importlib.import_module("checks." + p)
        r2 = random.Random("P18/%s/%d" % (p, rng.randint(0, 1 << 30)))
        light = [c for c in m.gen(r2, "few" if tier == "quick" else "sample") if c.kind == "probe" and len(c.line) < 12000 and not c.id.startswith("big")]
        r2.shuffle(light)
        for c in light[:per]:
            c.id = p + c.id
            c.flavour = "plain"
            c.wrap = VG
            c.timeout = 300
            c.meta = {"probe": p}
            yield c


def stats_shape(x):
    return [r.split(",")[:1] + r.split(",")[2:] for r in x.split("\n")]


def judge(c, o):
    if "probe" in c.meta:
        if o.status != "ok":
            return Verdict([(o.key, "%s under memcheck: %s" % (c.line[:150], o.stderr[:1200]))])
        return Verdict([], None, events=len(o.events))
    v = []
    subs = list(zip(c.runs, o.subs))
    for r, x in subs:
        if x.status != "ok":
            v.append((x.key, "%s%s ended with %s: %s" % ("memcheck: " if r.wrap else "", " ".join(r.argv), x.key, x.stderr[:1200])))
    if v:
        return Verdict(v)
    cmp = [(r, x) for r, x in subs if not r.wrap]
    a = cmp[0][1].files
    for r, x in cmp[1:]:
        b = x.files
        if a.get("out.csv") != b.get("out.csv"):
            v.append(("barcode", "%s with %s writes another barcode file: %r / %r" % (" ".join(r.argv), r.env and {k: z[:20] for k, z in r.env.items()}, a.get("out.csv", "missing")[:200], b.get("out.csv", "missing")[:200])))
        if stats_shape(a.get("out_stats.csv", "")) != stats_shape(b.get("out_stats.csv", "")):
            v.append(("stats", "%s: statistics rows differ beyond times: %s / %s" % (" ".join(r.argv), stats_shape(a.get("out_stats.csv", ""))[1:3], stats_shape(b.get("out_stats.csv", ""))[1:3])))
    if "out.csv" not in a:
        v.append(("no-output", "no barcode file"))
        return Verdict(v)
    sig = a["out.csv"] if a["out.csv"].count("\n") > 2 else None
    return Verdict(v, sig, evals=len(subs), events=sum(x.files["out.csv"].count("\n") for _, x in cmp))
