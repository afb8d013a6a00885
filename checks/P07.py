from lib import csvgen
from lib.core import Verdict, Case, esc

TARGETS = ("probe",)
CHUNK = 20
RULE = ("generated CSV texts (decimal, signed and scientific numbers of many spellings and magnitudes; blanks and tabs, LF and CRLF, blank lines, trailing commas, "
        "missing final newline, 0 to 9000, some 70000 rows, 1 to 300 columns, lines up to 100000 characters) read through readInput::readCSV; every row is compared bit for bit with the numbers "
        "the text denotes. Non-trivial: at least one row; distinct: the text's digest")
MIN_DISTINCT = 60


def gen(rng, tier):
    total = {"few": 116, "sample": 700, "quick": 2100}.get(tier, 10500)
    for i in range(total):
        k = rng.random()
        if k < 0.05:
            t, rows = "", []
        elif k < 0.08:
            t, rows = rng.choice(["\n", "\n\n\r\n", "   ", "\t\n \n"]), []
        elif k < 0.16:
            # single characters and single columns
            vals = [float(rng.randint(0, 9)) for _ in range(rng.randint(1, 12))]
            t = "\n".join("%d" % x for x in vals) + rng.choice(["", "\n"])
            rows = [[x] for x in vals]
        elif k < 0.2:
            t, rows = csvgen.text(rng, rng.randint(200, 2000) if k < 0.19 else 9000, rng.randint(1, 4))
        elif tier != "few" and i % 700 == 5:
            # very many short rows
            n = [25000, 40000, 70000][i // 700 % 3]
            rows = [[float(rng.randint(-9, 99)) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
            t = "\n".join(",".join("%d" % x for x in r) for r in rows) + rng.choice(["", "\n"])
        elif k < 0.24:
            t, rows = csvgen.text(rng, rng.randint(1, 3), 10, lens=[rng.choice([999, 1000, 1023, 1024, 4096, 8192, 65536, 100000])])
        else:
            t, rows = csvgen.text(rng, rng.randint(1, 40), rng.choice([1, 2, 3, 3, 5, 20, 60, 300]), ragged=rng.random() < 0.2)
        name = "f%d%s" % (i, rng.choice([".csv", ".txt", ""]))
        yield Case("c%d" % i, "probe", "readcsv {d}/" + name, files={name: t}, meta={"rows": rows})
    for j in range(3):
        yield Case("missing%d" % j, "probe", "readcsv {d}/no-such-file%d" % j, meta={"rows": []})


def same(a, b):
    return a == b and all(str(x) == str(y) for x, y in zip(a, b))


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    got = o.matrix("row")
    exp = c.meta["rows"]
    v = []
    if len(got) != len(exp):
        v.append(("rowcount", "%d rows in the text, %d read" % (len(exp), len(got))))
    else:
        for i, (a, b) in enumerate(zip(exp, got)):
            if len(a) != len(b):
                v.append(("columns", "row %d has %d numbers, %d read" % (i, len(a), len(b))))
                break
            if not same(a, b):
                k = [j for j in range(len(a)) if str(a[j]) != str(b[j])][0]
                v.append(("value", "row %d column %d denotes %r, read as %r" % (i, k, a[k], b[k])))
                break
    if o.one("row.rows") is None:
        v.append(("protocol", "no result"))
    sig = hash(str(exp)) if exp else None
    return Verdict(v, sig, evals=sum(map(len, exp)), events=len(o.events))
