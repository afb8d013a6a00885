import re
from lib import gens, ref
from lib.core import Verdict, Case
from lib.barcheck import *

TARGETS = ("LHF",)
CHUNK = 6
RULE = ("the same request is run well-formed and with one thing wrong (stage or preprocessor nobody knows in any place of the list, unknown mode or complex type, missing, empty or blank "
        "input file in every mode, option without a value, stray words). The monitor looks for the message, for a normal end, and compares barcode, statistics and every file around with the well-formed run "
        "(or with what was there before). Non-trivial: the faulty run was reported; distinct: fault and results")
MIN_DISTINCT = 120
VR = ["distMatrix", "neighGraph", "rips", "fastPersistence"]
WORDS = ["foo", "Rips", "fastpersistence", "distmatrix", "persist", "kmeans++", "neighgraph", "rips2", "x" * 300, "fas", "dist Matrix", "none", "0"]
KEEP = "kept\n"
CONF = "LHF : Failed to configure pipeline: "


def norm(t):
    return [",".join(a[:1] + a[2:]) for a in (r.split(",") for r in (t or "").split("\n"))]


def gen(rng, tier):
    total = {"few": 70, "sample": 420, "quick": 1680}.get(tier, 8400)
    faults = ["stage", "stage", "stages", "pre", "mode", "ctype", "missing", "empty", "blank", "novalue", "stray", "unknownopt"]
    for i in range(total):
        f = faults[i % len(faults)]
        dim = rng.choice([1, 2, 2, 3])
        ctype = rng.choice(TYPES)
        pts = gens.cloud(rng, rng.randint(1, 9), rng.choice([1, 2, 3]), gens.KINDS[i % len(gens.KINDS)])[:9]
        d = ref.dist_matrix(pts)
        eps = gens.pick_eps(rng, d)
        if ref.near_eps(d, eps):
            continue
        m = {"fault": f}
        dbg = ["-x", "1"] if rng.random() < 0.2 else []
        long = rng.random() < 0.3
        mk = lambda k, extra, e=eps, dm=dim, ct=ctype: cli_case(k, pts, e, dm, ct, extra + dbg, "repr", mkdirs=("output",), long=long)
        stages = VR[:rng.choice([4, 4, 4, 3, 2, 1])]
        if f in ("stage", "stages"):
            lst = list(stages)
            for _ in range(1 if f == "stage" else rng.randint(2, 6)):
                lst.insert(rng.randint(0, len(lst)), rng.choice(WORDS))
            if rng.random() < 0.1:
                lst.insert(rng.randint(0, len(lst)), "")
            runs = [mk("a", ["-p", ".".join(stages)]), mk("b", ["-p", ".".join(lst)])]
            m["say"] = CONF + ".".join(lst)
            m["times"] = len(lst) - len(stages)
        elif f == "pre":
            w = rng.choice(["foo", "Kmeans", "kmean", "k-means++", "dbscan", "kdTree", "denstream ", "x" * 200])
            runs = [mk("a", []), mk("b", ["-pre", w])]
            m["say"] = CONF
            m["times"] = 1
        elif f == "mode":
            runs = [mk("b", ["-m", rng.choice(["foo", "Standard", "nai", "std", "upscale", "x" * 200])])]
            m["say"] = CONF
            m["times"] = 1
            m["nothing"] = "header"
        elif f == "ctype":
            w = rng.choice(["foo", "simplextree", "SimplexTree", "simplexArray", "tree", "x" * 100])
            runs = [mk("b", ["-p", ".".join(stages)] if rng.random() < 0.5 else [] , ct=w)]
            m["say"] = w
            m["nothing"] = "files"
        elif f in ("missing", "empty", "blank"):
            extra = rng.choice([[], [], ["-m", "fast"], ["-m", "reduced"], ["-m", "naive"], ["-pre", "kmeans++", "-k", "2"], ["-pre", "denStream"], ["-u", "true"], ["-p", "distMatrix"], ["--mpi", "1"]])
            r = mk("b", extra)
            r.files = {} if f == "missing" else {"in.csv": "" if f == "empty" else rng.choice(["\n", "\n\n\n", "  \n\t\n", "\r\n\r\n", "\t", " \n" * 2000, "   "])}
            if f == "missing" and rng.random() < 0.2:
                # no input given at all
                j = r.argv.index("--inputFile" if long else "-i")
                del r.argv[j:j + 2]
            runs = [r]
            if f == "missing":
                m["say"] = "Failed to open file"
            m["nothing"] = "files"
        elif f == "novalue":
            opt = rng.choice(["-e", "--epsilon", "-d", "--dimensions", "-x", "-foo", "-c", "-p", "-pre", "-k", "--mode"])
            # an option that is not followed by a value counts as not given
            a, b = mk("a", []), mk("b", [])
            name = {"e": "epsilon", "d": "dimensions", "c": "complexType"}.get(opt.strip("-")[:1] if len(opt) == 2 else "", opt.strip("-"))
            for r in (a, b):
                for o in ("-" + {"epsilon": "e", "dimensions": "d", "complexType": "c"}.get(name, "?"), "--" + name):
                    if o in r.argv:
                        j = r.argv.index(o)
                        del r.argv[j:j + 2]
            if name == "epsilon" and (ref.near_eps(d, 5.0)):
                continue
            b.argv.append(opt)
            runs = [a, b]
            m["say"] = opt
        elif f == "stray":
            # pairs of words: the first is no option
            a, b = mk("a", []), mk("b", [])
            w = rng.choice(["x", "epsilon", "in.csv", "i"])
            j = 2 * rng.randint(0, len(b.argv) // 2)
            b.argv[j:j] = [w, rng.choice(["y", "1", "3.5", "simplexTree"])]
            runs = [a, b]
            m["say"] = w
        else:
            # an option nobody knows changes nothing
            a, b = mk("a", []), mk("b", [])
            j = 2 * rng.randint(0, len(b.argv) // 2)
            b.argv[j:j] = [rng.choice(["--foo", "-q", "--Epsilon", "-ee", "--dimension"]), rng.choice(["y", "1", "-3.5"])]
            runs = [a, b]
            m["say"] = None
        if m.get("nothing") == "files" or rng.random() < 0.3:
            # what is there already
            if rng.random() < 0.5:
                m["kept"] = [k for k in ("out.csv", "out_stats.csv", "out", "other.csv") if rng.random() < 0.7]
                for k in m["kept"]:
                    runs[-1].files[k] = KEEP
        m["long"] = long
        yield Case("c%d" % i, "multi", runs=runs, meta=m)


def judge(c, o):
    m = c.meta
    v = []
    x, run = o.subs[-1], c.runs[-1]
    tag = "%s (%s)" % (" ".join(run.argv)[:300], m["fault"])
    for r, s in zip(c.runs, o.subs):
        if s.status != "ok":
            return Verdict([(s.key, "%s (%s) ended with %s\n%s" % (" ".join(r.argv)[:300], m["fault"], s.key, s.stderr[:600]))])
    said = x.stdout + x.stderr
    # the settings are printed before anything is done
    body = "\n".join(l for l in said.split("\n") if not re.match(r"\w+\t", l))
    say = m.get("say")
    if say and say not in body:
        v.append(("silent", "%s: nothing says %r; printed: %r" % (tag, say[:80], body[-300:])))
    elif m.get("times") and body.count(CONF) != m["times"]:
        v.append(("reports", "%s: %d reports for %d faults" % (tag, body.count(CONF), m["times"])))
    usage = "Usage: " in body
    if m["fault"] in ("ctype", "missing", "empty", "blank", "novalue", "stray") and not usage:
        v.append(("usage", "%s: the usage text is not shown" % tag))
    if m["fault"] not in ("novalue", "stray", "ctype", "missing", "empty", "blank") and usage:
        v.append(("usage-shown", "%s: usage text shown" % tag))
    files = dict(x.files)
    if m.get("nothing") == "files":
        if files:
            k = sorted(files)[0]
            v.append(("files", "%s: wrote, changed or removed %s (%r)" % (tag, sorted(files)[:5], (files[k] or "")[:100])))
        return Verdict(v, "%s %s" % (m["fault"], " ".join(run.argv)) if not v else None, 3, events=len(said.split("\n")))
    for k in m.get("kept", []):
        if k == "other.csv" and k in files:
            v.append(("other", "%s: other.csv was touched" % tag))
    if m.get("nothing") == "header":
        if files.get("out.csv", "").split() != ["dimension,birth,death"]:
            v.append(("invented", "%s: no stage ran, barcode file %r" % (tag, files.get("out.csv"))))
        if len((files.get("out_stats.csv") or "").split()) != 1:
            v.append(("invented", "%s: no stage ran, statistics %r" % (tag, files.get("out_stats.csv"))))
        return Verdict(v, "mode %s" % " ".join(run.argv) if not v else None, 4, events=len(said.split("\n")))
    a = o.subs[0].files
    if a.get("out.csv") is None:
        return Verdict(v + [("missing", "the well-formed run wrote no barcode file")])
    if files.get("out.csv") != a["out.csv"]:
        v.append(("barcode", "%s: barcode %r, well-formed %r" % (tag, (files.get("out.csv") or "none")[:300], a["out.csv"][:300])))
    if norm(files.get("out_stats.csv")) != norm(a.get("out_stats.csv")):
        v.append(("statistics", "%s: statistics %r, well-formed %r" % (tag, norm(files.get("out_stats.csv")), norm(a.get("out_stats.csv")))))
    sa = {k: t for k, t in a.items() if k.startswith("output/")}
    sb = {k: t for k, t in files.items() if k.startswith("output/")}
    if sa != sb:
        v.append(("state", "%s: state files %s differ from %s" % (tag, sorted(sb), sorted(sa))))
    new = {k for k in files if not k.startswith("output/")} - {"out", "out.csv", "out_stats.csv"}
    if new:
        v.append(("new-files", "%s: wrote %s" % (tag, sorted(new)[:4])))
    return Verdict(v, "%s %s %s" % (m["fault"], m.get("times"), a["out.csv"].split()[-4:]) if not v else None, 6, events=len(said.split("\n")))
