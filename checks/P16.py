import itertools
import math
from lib import gens
from lib.core import Verdict, Case, mat, vec, fh

TARGETS = ("probe",)
CHUNK = 30
RULE = ("generated index sets (disjoint, overlapping, nested, equal, empty, adjacent simplices differing in one vertex, 0 to 13 elements with all subsets and up to 300 without, indices up to 4294967295), "
        "as sets and as sorted and unsorted vectors, given to the set helpers, and point lists given to the distance helpers; results are compared with Python's set operations. "
        "Non-trivial: both sets non-empty; distinct: the two sets")
MIN_DISTINCT = 60


def gen(rng, tier):
    total = {"few": 666, "sample": 4000, "quick": 16000}.get(tier, 80000)
    for i in range(total):
        if i % 10 == 9:
            pts = gens.cloud(rng, rng.choice([400, 1100, 2500, 5000]) if i % 800 == 9 else rng.randint(1, 12) if rng.random() < 0.9 else rng.choice([17, 33, 70, 130]), rng.choice([1, 2, 3, 8, rng.randint(1, 40)]), gens.KINDS[(i // 10) % len(gens.KINDS)])
            yield Case("d%d" % i, "probe", "distances " + mat(pts), meta={"pts": pts})
            continue
        top = rng.choice([4, 8, 15, 40, 300, 2 ** 32 - 1])
        n = rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, 8])
        if i % 50 == 7:
            n = rng.choice([10, 11, 12, 13])
            top = rng.choice([15, 300, 2 ** 32 - 1])
        elif i % 20 == 3:
            n = rng.choice([14, 17, 33, 65, 150, 300])     # no enumeration
            top = rng.choice([400, 1000, 2 ** 32 - 1])
        a = set(rng.randint(0, top) for _ in range(n))
        r = rng.random()
        if r < 0.35 and a:
            # share all but one
            b = set(a)
            b.discard(rng.choice(sorted(a)))
            if rng.random() < 0.8:
                b.add(rng.randint(0, top))
        elif r < 0.45:
            b = set(a)
        elif r < 0.55:
            b = set(rng.sample(sorted(a), rng.randint(0, len(a))))
        elif r < 0.62:
            b = a | set(rng.randint(0, top) for _ in range(2))
        else:
            b = set(rng.randint(0, top) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 12, n, 2 * n])))
        x, y = sorted(a), sorted(b)
        srt = rng.random() < 0.5
        if not srt:
            rng.shuffle(x)
            rng.shuffle(y)
        yield Case("c%d" % i, "probe", "sets %s %s %d" % (vec(x), vec(y), srt), meta={"a": sorted(a), "b": sorted(b), "sorted": srt})


def ints(x):
    x = x.replace("%20", " ")
    return [] if x == "%" else [int(y) for y in x.split()]


def judge(c, o):
    if o.status != "ok":
        return Verdict([(o.key, "ended with %s\n%s" % (o.key, o.stderr[:600]))])
    v = []
    if "pts" in c.meta:
        p = c.meta["pts"]
        d = [fh(x) for x in o.get("d")]
        nn = [[fh(y) for y in x.split()] for x in o.get("nn")]
        rows = p if len(p) <= 300 else p[:2]
        e = [math.dist(a, b) for a in (rows if len(p) <= 300 else p[:1]) for b in p]
        if len(d) != len(e) or any(not abs(x - y) <= 1e-9 * (1 + y) for x, y in zip(d, e)):
            v.append(("distance", "vectors_distance differs from the Euclidean distance on %s" % p[:3]))
        if len(nn) != len(rows) or any(len(r) != len(p) or any(not abs(x - math.dist(a, b)) <= 1e-9 * (1 + x) for x, b in zip(r, p)) for r, a in zip(nn, rows)):
            v.append(("distances", "nearestNeighbors does not list the distances in order"))
        return Verdict(v, None, evals=2 * len(e), events=len(o.events))
    a, b = set(c.meta["a"]), set(c.meta["b"])
    where = " of %s and %s (%s)" % (sorted(a), sorted(b), "sorted" if c.meta["sorted"] else "unsorted")

    def want(tag, exp, name):
        g = ints(o.one(tag))
        if g != exp:
            v.append((tag, "%s%s gives %s, expected %s" % (name, where, g, exp)))
    want("xor", sorted(a ^ b), "setXOR")
    want("ints", sorted(a & b), "setIntersect (sets)")
    want("intv", sorted(a & b), "setIntersect (vectors)")
    want("ints2", sorted(a & b), "setIntersect (sets, announced as unsorted)")
    want("sds2", sorted(a ^ b), "symmetricDiff (sets, announced as unsorted)")
    want("sdv", sorted(a ^ b), "symmetricDiff (vectors)")
    want("sds", sorted(a ^ b), "symmetricDiff (sets)")
    want("union", sorted(a | b), "setUnion")
    x, y = [ints(z) for z in o.one("adj").split(" ")]
    e = (sorted(a ^ b), sorted(a | b)) if len(a ^ b) == 2 else ([], [])
    if (x, y) != e:
        v.append(("adj", "intersect%s gives %s, expected %s" % (where, (x, y), e)))
    f = sorted(map(list, itertools.combinations(sorted(a), len(a) - 1))) if a else []
    evals = 9
    if len(a) > 13:
        return Verdict(v, "%s %s" % (sorted(a), sorted(b)), evals=evals, events=len(o.events))
    for tag in ("facets", "facetv"):
        g = sorted(ints(z) for z in o.get(tag))
        if a and g != f:
            v.append((tag, "facets of %s: %s, expected %s" % (sorted(a), g, f)))
        evals += 1
    subs = {}
    for z in o.get("sub"):
        d, s = z.split(" ")
        subs.setdefault(int(d), []).append(ints(s))
    for d in range(0, len(a) + 2):
        g = sorted(subs.get(d, []))
        e = sorted(map(list, itertools.combinations(sorted(a), d)))
        evals += 1
        if g != e:
            v.append(("subsets", "subsets of size %d of %s: %d, expected %d" % (d, sorted(a), len(g), len(e))))
            break
    return Verdict(v, "%s %s" % (sorted(a), sorted(b)) if a and b else None, evals=evals, events=len(o.events))
