from lib import gens, ref
from lib.core import Verdict, Case, esc, unesc, conf
from lib.barcheck import *

CHUNK = 20
RULE = ("generated command lines: random subsets of all options in short or long form, in random order, with numbers, names, words of up to 5000 characters, empty, dashed and spaced values, values that look like options, unknown options, invalid words, repeated options and a "
        "trailing option without value, every mode with and without an explicit stage list; results of argParser::parse, defaultArguments and setPipeline and the settings "
        "printed by the executable are compared with a table-driven model, and the executable's output files and statistics rows with the printed settings. "
        "Non-trivial: at least one option given; distinct: the resulting settings")
MIN_DISTINCT = 60
SHORT = {"mpi": "a", "mode": "m", "dimensions": "d", "iterations": "r", "pipeline": "p", "inputFile": "i", "outputFile": "o", "epsilon": "e", "lambda": "l",
         "debug": "x", "complexType": "c", "clusters": "k", "preprocessor": "pre", "upscale": "u", "twist": "t", "collapse": "z"}
DEFAULT = {"mpi": "0", "mode": "standard", "dimensions": "1", "iterations": "250", "pipeline": "", "inputFile": "None", "outputFile": "output.csv", "epsilon": "5",
           "lambda": ".25", "debug": "0", "complexType": "simplexTree", "clusters": "20", "preprocessor": "", "upscale": "false", "twist": "false", "collapse": "false"}
VR = "distMatrix.neighGraph.rips.fastPersistence"
MODES = {
    "standard": {"pipeline": VR},
    "reduced": {"pipeline": VR, "upscale": "false", "complexType": "simplexTree", "pre-default": "kmeans++"},
    "fast": {"pipeline": VR, "upscale": "false", "complexType": "simplexTree"},
    "sw": {"pipeline": "slidingwindow", "preprocessor": "", "upscale": "false", "complexType": "simplexTree"},
    "slidingwindow": {"pipeline": "slidingwindow", "preprocessor": "", "upscale": "false", "complexType": "simplexTree"},
    "naive": {"pipeline": "naivewindow", "preprocessor": "", "upscale": "false", "complexType": "simplexTree"},
    "naivewindow": {"pipeline": "naivewindow", "preprocessor": "", "upscale": "false", "complexType": "simplexTree"},
    "stream": {"pipeline": VR, "pre-default": "streamingkmeans"},
    "upscaleBound": {"pipeline": "distMatrix.neighGraph.rips.persistence.boundary.upscale", "upscale": "true", "pre-default": "kmeans++"},
}


def model(given):
    s = dict(DEFAULT)
    s.update(given)
    return s


def with_mode(s):
    s = dict(s)
    if s["pipeline"] == "" and s["mode"] in MODES:
        m = dict(MODES[s["mode"]])
        pd = m.pop("pre-default", None)
        s.update(m)
        if pd and s["preprocessor"] == "":
            s["preprocessor"] = pd
    return s


def value(rng, k):
    return {"mode": lambda: rng.choice(list(MODES) + ["other"]), "dimensions": lambda: str(rng.randint(1, 4)), "epsilon": lambda: rng.choice(["2.5", "5", "1e3", "0.001", "10"]),
            "iterations": lambda: str(rng.randint(1, 500)), "pipeline": lambda: rng.choice(["distMatrix", VR, "distMatrix.neighGraph.fast", "distMatrix.distMatrix.distMatrix"]),
            "inputFile": lambda: rng.choice(["a.csv", "/tmp/x y.csv", "-", "../d.csv"]), "outputFile": lambda: rng.choice(["out", "console", "dir/o"]),
            "lambda": lambda: rng.choice(["0.5", ".1", "-1", "2"]), "debug": lambda: rng.choice(["0", "1", "true"]), "clusters": lambda: str(rng.randint(1, 99)),
            "complexType": lambda: rng.choice(TYPES + ["other"]), "preprocessor": lambda: rng.choice(["kmeans++", "denStream", "streamingkmeans", ""]),
            "upscale": lambda: rng.choice(["true", "false"]), "twist": lambda: rng.choice(["true", "false"]), "collapse": lambda: rng.choice(["true", "false"])}[k]()


def line(rng, given):
    a = []
    ks = list(given)
    rng.shuffle(ks)
    for k in ks:
        name = "--" + k if rng.random() < 0.5 else "-" + SHORT[k]
        if rng.random() < 0.05:
            # given before with another value, spelled the same way
            a[:0] = [name, value(rng, k) if k != "mpi" else "1"]
        a += [name, given[k]]
        if rng.random() < 0.05:
            a += ["nonsense", rng.choice(["1", "-e", "--mode", "", "nonsense"])]
        if rng.random() < 0.03:
            a += [rng.choice(["--unknown", "-q", "-y", "--Mode", "-E"]), rng.choice(["1", "", "-e", "fast"])]
    if rng.random() < 0.08:
        a.append("-" + SHORT[rng.choice([k for k in SHORT if k not in given] or ["mode"])] if len(given) < 16 else "-q")
    return a


def gen(rng, tier):
    total = {"few": 250, "sample": 1500, "quick": 12000}.get(tier, 60000)
    keys = [k for k in SHORT if k != "mpi"]
    for i in range(total):
        r = rng.random()
        given = {k: value(rng, k) for k in rng.sample(keys, rng.choice([0, 1, 1, 2, 3, 5, 8, len(keys)]))}
        if r < 0.45 and rng.random() < 0.6:
            given.pop("pipeline", None)
            given["mode"] = rng.choice(list(MODES))
        if r < 0.75:
            pipe = r < 0.45
            for k in given:
                # any word is a value
                if rng.random() < 0.04:
                    given[k] = rng.choice(["", "", "-d", "--mode", "-pre", "--", "-", "-1", "-mode", "-debug", "-epsilon", "--dimensions", "-k", "x=y", " ", "nonsense"])
                elif rng.random() < 0.02:
                    given[k] = "".join(rng.choice("abc./-_ 1") for _ in range(rng.choice([17, 64, 256, 300, 1100, 5000])))
            if rng.random() < 0.1:
                given["mpi"] = "0"
            a = ["LHF"] + line(rng, given)
            yield Case("a%d" % i, "probe", "args %d %d %s" % (len(a), pipe, " ".join(esc(x) for x in a)), meta={"given": given, "pipe": pipe})
        else:
            # a settings map filled by hand, with short and long names
            m = {(k if rng.random() < 0.6 else SHORT[k]): v for k, v in given.items()}
            yield Case("d%d" % i, "probe", "defaults " + conf(m), meta={"given": given, "pipe": False})
    for i in range({"few": 6, "sample": 40, "quick": 320}.get(tier, 1280)):
        pts = gens.cloud(rng, rng.randint(3, 9), 2, rng.choice(["uniform", "circle", "grid"]))
        given = {"epsilon": value(rng, "epsilon"), "dimensions": str(rng.randint(1, 3)), "outputFile": rng.choice(["out", "res.x", "sub/o", "res.csv", "a_stats", "sub/x.y.csv"]), "inputFile": rng.choice(["in.csv", "data"])}
        if rng.random() < 0.5:
            given["complexType"] = rng.choice(TYPES)
        k = rng.random()
        if k < 0.3:
            given["mode"] = rng.choice(["standard", "fast"])
        elif k < 0.6:
            given["pipeline"] = rng.choice([VR, "distMatrix.neighGraph.fast", "distMatrix", "distMatrix.distMatrix.distMatrix", "distMatrix.neighGraph.rips"])
            if rng.random() < 0.5:
                given["mode"] = rng.choice(["naive", "fast", "standard", "other"])
        if rng.random() < 0.3:
            given["debug"] = "0"
        yield Case("x%d" % i, "cli", argv=line(rng, given), files={given["inputFile"]: gens.csv(pts)}, mkdirs=("sub",), meta={"given": given, "pipe": True, "pts": pts})


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    m = c.meta
    exp = model(m["given"])
    if m["pipe"]:
        exp = with_mode(exp)
    v = []
    if c.kind == "probe":
        got = dict(tuple(map(unesc, x.split(" "))) for x in o.get("arg"))
    else:
        got = {}
        for l in o.stdout.split("\n"):
            a = l.split("\t")
            if len(a) == 2 and a[0] in SHORT and a[0] not in got:
                got[a[0]] = a[1]
    for k in sorted(SHORT):
        if k not in got:
            v.append(("lost", "option %s is missing from the settings" % k))
        elif got[k] != exp[k]:
            v.append(("setting:" + k, "option %s is %r, expected %r (given: %s)" % (k, got[k], exp[k], m["given"])))
    if c.kind == "cli" and not v:
        base = exp["outputFile"]
        if base + ".csv" not in o.files or base + "_stats.csv" not in o.files:
            v.append(("files", "no result files under the given name %s: %s" % (base, sorted(o.files))))
        else:
            rows = o.files[base + "_stats.csv"].split("\n")[1:]
            n = len([r for r in rows if r])
            if n != len(exp["pipeline"].split(".")):
                v.append(("stages", "%d stages run for the stage list %s" % (n, exp["pipeline"])))
            if "fast" in exp["pipeline"]:
                _, bars = ref.parse_bars(o.files[base + ".csv"])
                e0, eh = ref.vr_bars(m["pts"], float(exp["epsilon"]), int(exp["dimensions"]), inclusive=False)
                d = ref.dist_matrix(m["pts"])
                if not ref.near_eps(d, float(exp["epsilon"])):
                    u1, u2 = ref.match(e0 + eh, bars, tol_for(d))
                    if u1 or u2 or len([b for b in bars if b[0] == 0]) != len(e0):
                        v.append(("effect", "the barcode is not that of epsilon %s, dimensions %s" % (exp["epsilon"], exp["dimensions"])))
    sig = str(sorted(exp.items())) if m["given"] else None
    return Verdict(v, sig, evals=len(SHORT), events=len(o.events) + len(got))
