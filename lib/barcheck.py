"""Shared by the barcode monitors: build a command line run, interpret its
barcode file, compare with the reference intervals."""
import zlib
from . import core, gens, ref

TYPES = ["simplexTree", "simplexArrayList", "indSimplexTree"]


def cli_case(cid, pts, eps, dim, ctype="simplexTree", extra=(), style="repr", meta=None, flavour="asan", long=False, inname="in.csv", timeout=0, mkdirs=()):
    n = ("--inputFile", "--outputFile", "--epsilon", "--dimensions", "--complexType") if long else ("-i", "-o", "-e", "-d", "-c")
    argv = [n[0], inname, n[1], "out", n[2], "%.17g" % eps, n[3], str(dim), n[4], ctype] + list(extra)
    m = {"pts": pts, "eps": eps, "dim": dim, "ctype": ctype}
    m.update(meta or {})
    files = {inname: gens.csv(pts, style)}
    if zlib.crc32(("%s %d" % (cid, len(pts))).encode()) % 3 == 0:
        # result files of an older run lie there: they are replaced
        files["out.csv"] = "dimension,birth,death\n" + "0,0,7.125000\n" * 300
        files["out_stats.csv"] = "PipeName,Old\n" + "DistMatrix,0.1,1.5,KB,7,7\n" * 40
    return core.Case(cid, "cli", argv=argv, files=files, meta=m, flavour=flavour, timeout=timeout, mkdirs=mkdirs)


def bars_of(o, base="out"):
    """Intervals in <base>.csv of a finished run, or None with a reason."""
    if o.status != "ok":
        return None, (o.key, "the run ended with %s: %s" % (o.key, o.stderr[:600]))
    name = base + ".csv"
    if name not in o.files:
        return None, ("no-output", "no barcode file was written")
    try:
        h, bars = ref.parse_bars(o.files[name])
    except ValueError as e:
        return None, ("bad-output", "barcode file is malformed: %s" % e)
    if h != "dimension,birth,death":
        return None, ("bad-header", "barcode file starts with %r" % h)
    return bars, None


def tol_for(d):
    mx = max([max(r) for r in d] + [1.0]) if d else 1.0
    return 2e-6 + 1e-12 * mx


def show(bars, k=8):
    return "; ".join("H%d [%.6f, %.6f)" % b for b in sorted(bars)[:k]) + (" ..." if len(bars) > k else "") or "none"
