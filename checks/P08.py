from lib.core import Verdict, Case, esc, rag, unesc

TARGETS = ("probe",)
CHUNK = 20
RULE = ("generated matrices (0 to 1100 rows, some 255 to 70000, 0 to 130 columns, magnitudes 1e-9 to 1e40, ragged for CSV), headers and texts written by every writer over missing, "
        "shorter and longer old files; the file on disk is compared with header and values (six decimals) or verbatim text, and CSV and MAT files are read back. "
        "Non-trivial: a file with at least one value or character; distinct: writer and content digest")
MIN_DISTINCT = 60
LETTERS = bytes((b"abc,;01.5-\n\t e%" * 18)[:256])
ASCII = bytes(i % 128 for i in range(256)).replace(b'{', b'}')
BARHEAD = "dimension,birth,death\n"
STATHEAD = "PipeName,PhysExecutionTime,MemorySize,MemoryUnits,VertexCount,SimplexCount\n"


def val(rng):
    k = rng.random()
    if k < 0.3:
        return float(rng.randint(-99, 99))
    if k < 0.7:
        return rng.uniform(-1000, 1000)
    if k < 0.8:
        return rng.choice([0.0, -0.0, 1e-7, -1e-7, 0.5e-6, 1e-6, 0.9999995, 999999.9999999, 123456.654321, 0.1, -0.000001])
    if k < 0.84:
        # neither an integer of few digits nor a small fraction
        return rng.choice([-1, 1]) * (rng.choice([2.0 ** 31, 2.0 ** 32, 1e12, 1e15, 2.0 ** 52 - 1]) + rng.choice([0.0, 0.5, 0.5, 1.0, -0.5]))
    if k < 0.87:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(19, 40)
    return rng.uniform(-1, 1) * 10.0 ** rng.randint(-9, 18)


def matrix(rng, ragged, mincol=1):
    n = rng.choice([0, 1, 1, 2, 3, 7, 20, 60]) if rng.random() < 0.95 else rng.choice([300, 1100])
    m = rng.choice([1, 1, 2, 3, 3, 8, 40, 130]) if n < 100 else rng.choice([1, 2, 3])
    if not ragged and rng.random() < 0.05:
        m = 0
    return [[val(rng) for _ in range(rng.randint(mincol, max(mincol, m)) if ragged else m)] for _ in range(n)]


def sometext(rng):
    t = rng.randbytes(rng.choice([0, 1, 5, 60, 3000, 70000])).translate(LETTERS if rng.random() < 0.8 else ASCII).decode()
    if rng.random() < 0.15:
        # text that itself starts like the file, or ends in blanks or line ends
        t = rng.choice([BARHEAD, STATHEAD, BARHEAD[:9], "h\n", "\n\n", "\r\n"]) + t + rng.choice(["", "\n\n\n", "  ", BARHEAD, "\r\n"])
    return t


def gen(rng, tier):
    total = {"few": 250, "sample": 1500, "quick": 6000}.get(tier, 30000)
    for i in range(total):
        kind = ["csvmat", "csvmath", "csvstr", "csvstrh", "mat", "stats", "barstr", "barmat"][i % 8]
        base = "w%d%s" % (i, rng.choice(["", ".x", "_a"]))
        ext = ".mat" if kind == "mat" else "_stats.csv" if kind == "stats" else ".csv"
        files = {}
        if rng.random() < 0.4:
            files[base + ext] = "old content 1,2,3\n" * rng.choice([1, 5, 2000])
        meta = {"kind": kind}
        args = ""
        back = "no"
        if kind in ("csvmat", "csvmath", "mat", "barmat"):
            rg = kind != "mat" and rng.random() < 0.2
            m = matrix(rng, rg)
            meta["m"] = m
            if kind == "csvmath":
                h = rng.choice(["", "x,y,z\n", "head\n", "# a comment line\n" * 3, "a\nb\n"])
                meta["head"] = h
                args = esc(h) + " "
            args += rag(m)
            if kind == "csvmat":
                back = "csv"
            elif kind == "mat":
                back = "mat"
        elif kind == "csvstrh":
            meta["head"], meta["text"] = rng.choice(["", "h\n", "dimension,birth,death\n"]), sometext(rng)
            args = esc(meta["head"]) + " " + esc(meta["text"])
        else:
            meta["text"] = sometext(rng)
            args = esc(meta["text"])
        yield Case("c%d" % i, "probe", "write %s {d}/%s %s %s" % (kind, base, args, back), files=files, meta=meta)
    if tier in ("few", "sample"):
        return
    # long texts, and as many rows as a buffer or table of a round size would hold
    for kind in ("csvstr", "csvstrh", "stats", "barstr"):
        t = rng.randbytes(rng.choice([1100000, 2200000])).translate(LETTERS).decode()
        head = "h\n" if kind == "csvstrh" else None
        yield Case("long" + kind, "probe", "write %s {d}/l %s%s no" % (kind, esc(head) + " " if head else "", esc(t)), files={}, meta={"kind": kind, "text": t, "head": head or ""})
    for k, n in enumerate([255, 256, 257, 512, 1024, 2048, 4096, 8192, 65536, 70000]):
        for kind in ("csvmat", "mat", "barmat"):
            m = [[val(rng)] if n > 5000 else [val(rng), val(rng)] for _ in range(n)]
            yield Case("rows%d%s" % (k, kind), "probe", "write %s {d}/r %s %s" % (kind, rag(m), {"csvmat": "csv", "mat": "mat"}.get(kind, "no")), files={}, meta={"kind": kind, "m": m})


def close(a, b):
    return abs(a - b) <= 5.1e-7 + 1e-15 * abs(a)


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    m = c.meta
    kind = m["kind"]
    v = []
    ok, content = o.one("file").split(" ", 1)
    content = unesc(content)
    if ok != "1":
        return Verdict([("nofile", kind + ": no file at the expected name")])
    head = m.get("head", "") if kind in ("csvmath", "csvstrh") else STATHEAD if kind == "stats" else BARHEAD if kind in ("barstr", "barmat") else ""
    evals = 1
    if not content.startswith(head):
        v.append(("header", "%s: file starts with %r instead of %r" % (kind, content[:80], head)))
    elif "text" in m:
        if content != head + m["text"]:
            v.append(("text", "%s: text of %d characters became %d" % (kind, len(m["text"]), len(content) - len(head))))
    else:
        mm = m["m"]
        body = content[len(head):]
        lines = body.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        if kind == "mat":
            want = [float(x) for r in mm for x in r]
            try:
                got = [float(x) for x in lines]
            except ValueError:
                got = None
            if got is None or got[:2] != [len(mm), len(mm[0]) if mm else 0]:
                v.append(("mat-size", "MAT file of a %dx%d matrix starts with %s" % (len(mm), len(mm[0]) if mm else 0, lines[:2])))
            elif len(got) - 2 != len(want):
                v.append(("mat-count", "MAT file holds %d values of %d" % (len(got) - 2, len(want))))
            else:
                for a, b in zip(want, got[2:]):
                    evals += 1
                    if not close(a, b):
                        v.append(("value", "%s: %r was written as %r" % (kind, a, b)))
                        break
        else:
            if len(lines) != len(mm):
                v.append(("rows", "%s: %d rows written as %d lines" % (kind, len(mm), len(lines))))
            else:
                for r, l in zip(mm, lines):
                    t = l.split(",")
                    if t and t[-1] == "":
                        t.pop()
                    try:
                        g = [float(x) for x in t]
                    except ValueError:
                        g = None
                    evals += len(r)
                    if g is None or len(g) != len(r) or not all(close(a, b) for a, b in zip(r, g)):
                        v.append(("value", "%s: row %s was written as %r" % (kind, r[:6], l[:200])))
                        break
        if kind in ("csvmat", "mat"):
            bk = o.matrix("back")
            want = [r for r in mm if r] if kind == "csvmat" else mm
            if len(bk) != len(want) or any(len(a) != len(b) or not all(close(x, y) for x, y in zip(a, b)) for a, b in zip(want, bk)):
                v.append(("roundtrip", "%s: a matrix of %d rows does not come back" % (kind, len(mm))))
    if o.one("wrote") != "1":
        v.append(("result", kind + ": the writer reports failure"))
    body = str(m.get("text", m.get("m")))
    return Verdict(v, hash((kind, body)) if len(body) > 4 else None, evals=evals, events=len(content))
