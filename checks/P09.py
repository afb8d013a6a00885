from lib import csvgen
from lib.core import Verdict, Case, esc, fh

TARGETS = ("probe",)
CHUNK = 20
RULE = ("generated CSV texts, with lines around and far beyond the stream buffer (998 to 140000 characters), blank lines at any place, LF and CRLF, with and without "
        "final newline, streamed by streamInit/streamRead once or several times on the same reader and switching between files; the delivered rows are compared "
        "bit for bit with the numbers denoted. Non-trivial: at least one row; distinct: content digest and reading pattern")
MIN_DISTINCT = 60


def one(rng):
    k = rng.random()
    if k < 0.06:
        return rng.choice([("", []), ("\n", []), ("\n \n", []), ("\t", [])])
    if k < 0.5:
        lens = [rng.choice([0, 0, 1, 2, 50, 997, 998, 999, 1000, 1001, 1997, 1998, 1999, 2000, 2997, 2998, 5000]) for _ in range(rng.randint(1, 6))]
        return csvgen.text(rng, rng.randint(1, 12), 4, lens=lens, blanks=rng.random() < 0.5)
    if k < 0.55:
        return csvgen.text(rng, rng.randint(1, 4), 4, lens=[0, rng.choice([20000, 60000, 70000, 140000])])
    if k < 0.65:
        return csvgen.text(rng, rng.choice([rng.randint(100, 800), 511, 512, 513, 1023, 1024, 1025, 1500]), rng.randint(1, 4))
    return csvgen.text(rng, rng.randint(1, 40), rng.choice([1, 2, 3, 3, 5, 20, 80]), ragged=rng.random() < 0.3)


def gen(rng, tier):
    total = {"few": 83, "sample": 500, "quick": 1500}.get(tier, 7500)
    for i in range(total):
        nf = rng.choice([1, 1, 2, 3])
        files, ops, exp = {}, [], []
        data = []
        for k in range(nf):
            t, rows = one(rng)
            if k == 0 and tier != "few" and i % 500 == 7:
                # very many short rows
                rows = [[float(rng.randint(-9, 99)) for _ in range(rng.choice([1, 1, 2]))] for _ in range([25000, 70000, 33000][i // 500 % 3])]
                t = "\n".join(",".join("%d" % x for x in r) for r in rows) + rng.choice(["", "\n"])
            n = "s%d_%d.csv" % (i, k)
            files[n] = t
            data.append((n, rows))
        for _ in range(rng.choice([1, 1, 2, 4])):
            if rng.random() < 0.08:
                ops.append("{d}/missing%d -1" % i)
                exp.append(None)
                continue
            n, rows = rng.choice(data)
            # -1: until no row is delivered, else that many rows and then reopen
            lim = -1 if rng.random() < 0.7 else rng.randint(0, max(1, len(rows)))
            ops.append("{d}/%s %d" % (n, lim))
            exp.append((rows, lim))
        if i % 3 == 0:
            # batch reading of the same files
            for k, (n, rows) in enumerate(data):
                yield Case("b%d_%d" % (i, k), "probe", "readcsv {d}/" + n, files={n: files[n]}, meta={"batch": rows})
        yield Case("c%d" % i, "probe", "streams %d %s" % (len(ops), " ".join(ops)), files=files, meta={"exp": exp})


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    if "batch" in c.meta:
        got, rows = o.matrix("row"), c.meta["batch"]
        if [list(map(str, r)) for r in got] != [list(map(str, r)) for r in rows]:
            return Verdict([("batch", "batch reading returns %d rows, the stream delivers %d from the same file, or others" % (len(got), len(rows)))])
        return Verdict([], None, evals=len(rows), events=len(o.events))
    seq = []
    for e in o.events:
        a = e.split(" ")
        if a[0] == "open":
            seq.append({"open": a[1] == "1", "rows": [], "eof": False})
        elif a[0] == "row":
            seq[-1]["rows"].append([fh(x) for x in a[1:] if x])
        elif a[0] == "eof":
            seq[-1]["eof"] = True
    v = []
    exp = c.meta["exp"]
    if len(seq) != len(exp):
        return Verdict([("protocol", "%d streams opened of %d" % (len(seq), len(exp)))])
    evals = 0
    for s, e in zip(seq, exp):
        if e is None:
            if s["open"] or s["rows"]:
                v.append(("missing-file", "opening a missing file succeeds or delivers %d rows" % len(s["rows"])))
            continue
        rows, lim = e
        if not s["open"]:
            v.append(("open", "an existing file is not opened"))
            continue
        want = rows if lim < 0 else rows[:lim]
        evals += len(want)
        got = s["rows"]
        if [list(map(str, r)) for r in got] != [list(map(str, r)) for r in want]:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if list(map(str, a)) != list(map(str, b))), min(len(got), len(want)))
            v.append(("rows", "%d rows in the file, %d delivered; first difference at row %d: expected %s, delivered %s" % (
                len(want), len(got), k, str(want[k:k + 1])[:150], str(got[k:k + 1])[:150])))
        if lim < 0 and not s["eof"]:
            v.append(("eof", "the stream does not end"))
    body = str(exp)
    return Verdict(v, hash(body) if evals else None, evals=evals, events=len(o.events))
