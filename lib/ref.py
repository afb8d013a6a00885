"""Reference models, written from the definitions and independent of the code
under test: distances, Vietoris-Rips complexes, persistent homology over Z/2,
interval matching with a tolerance.
"""
import itertools
import math


def dist(a, b):
    s = 0.0
    for x, y in zip(a, b):
        s += (x - y) ** 2
    return math.sqrt(s)


def dist_matrix(pts):
    n = len(pts)
    d = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            d[i][j] = d[j][i] = dist(pts[i], pts[j])
    return d


def rips(d, eps, maxdim, inclusive=False):
    """levels[k] = {simplex tuple of k+1 indices: diameter}, k <= maxdim."""
    n = len(d)
    nb = [set() for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            w = d[i][j]
            if w < eps or (inclusive and w == eps):
                nb[i].add(j)
    levels = [{(i,): 0.0 for i in range(n)}]
    cur = {(i,): (0.0, nb[i]) for i in range(n)}
    for k in range(1, maxdim + 1):
        nxt = {}
        for s, (w, cand) in cur.items():
            for j in cand:
                w2 = w
                for i in s:
                    if d[i][j] > w2:
                        w2 = d[i][j]
                nxt[s + (j,)] = (w2, cand & nb[j])
        if not nxt:
            break
        levels.append({s: w for s, (w, _) in nxt.items()})
        cur = nxt
    return levels


def components(n, edges):
    p = list(range(n))

    def f(x):
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x
    c = n
    merges = []
    for w, i, j in sorted(edges):
        a, b = f(i), f(j)
        if a != b:
            p[a] = b
            c -= 1
            merges.append(w)
    return c, merges


def h0_bars(d, eps):
    """Every (0, death) including zero length deaths; infinite ones die at eps."""
    n = len(d)
    edges = [(d[i][j], i, j) for i in range(n) for j in range(i + 1, n) if d[i][j] < eps]
    c, merges = components(n, edges)
    return [(0, 0.0, w) for w in merges] + [(0, 0.0, eps)] * c


def persistence(levels, maxh, eps):
    """All intervals of positive length in dimensions 1..maxh, classes alive at
    eps being cut off there.  Textbook column reduction (dimension by dimension),
    big integers as Z/2 columns."""
    bars = []
    index = []
    order = []
    for lv in levels:
        o = sorted(lv.items(), key=lambda kv: (kv[1], kv[0]))
        order.append(o)
        index.append({s: i for i, (s, _) in enumerate(o)})
    negative = [set() for _ in levels]       # simplices that kill something
    for k in range(1, len(levels)):
        low = {}
        for ci, (s, w) in enumerate(order[k]):
            col = 0
            for t in range(len(s)):
                col ^= 1 << index[k - 1][s[:t] + s[t + 1:]]
            while col:
                r = col.bit_length() - 1
                if r in low:
                    col ^= low[r]
                else:
                    low[r] = col
                    negative[k].add(ci)
                    if 1 <= k - 1 <= maxh:
                        b = order[k - 1][r][1]
                        if w != b:
                            bars.append((k - 1, b, w))
                    break
        # essential classes of dimension k-1
        if 1 <= k - 1 <= maxh:
            for i, (s, b) in enumerate(order[k - 1]):
                if i not in negative[k - 1] and i not in low and b != eps:
                    bars.append((k - 1, b, eps))
    top = len(levels) - 1
    if 1 <= top <= maxh:
        for i, (s, b) in enumerate(order[top]):
            if i not in negative[top] and b != eps:
                bars.append((top, b, eps))
    return bars


def vr_bars(pts, eps, dim, d=None, inclusive=False):
    """Everything a run with `dimensions = dim` has to report."""
    d = d or dist_matrix(pts)
    b0 = h0_bars(d, eps)
    if dim < 2:
        return b0, []
    lv = rips(d, eps, dim, inclusive)
    return b0, persistence(lv, dim - 1, eps)


def near_eps(d, eps, tol=1e-9):
    n = len(d)
    for i in range(n):
        for j in range(i + 1, n):
            if abs(d[i][j] - eps) <= tol * max(1.0, eps) and d[i][j] != eps:
                return True
    return False


def match(exp, got, tol):
    """Bipartite matching of intervals within tol; intervals not longer than
    2*tol may stay unmatched on either side.  Returns (unmatched expected,
    unmatched observed)."""
    e = sorted(exp)
    g = sorted(got)
    if e == g:
        return [], []
    # cheap cancellation of equal rounded entries first
    adj = []
    for x in e:
        adj.append([j for j, y in enumerate(g) if y[0] == x[0] and abs(y[1] - x[1]) <= tol and abs(y[2] - x[2]) <= tol])
    mg = [-1] * len(g)
    me = [-1] * len(e)

    def aug(i, seen):
        for j in adj[i]:
            if j in seen:
                continue
            seen.add(j)
            if mg[j] < 0 or aug(mg[j], seen):
                mg[j] = i
                me[i] = j
                return True
        return False
    # long expected intervals first: they must find a partner
    for i in sorted(range(len(e)), key=lambda i: -(e[i][2] - e[i][1])):
        for j in adj[i]:
            if mg[j] < 0:
                mg[j] = i
                me[i] = j
                break
        else:
            aug(i, set())
    ue = [e[i] for i in range(len(e)) if me[i] < 0 and e[i][2] - e[i][1] > 2 * tol]
    ug = [g[j] for j in range(len(g)) if mg[j] < 0 and g[j][2] - g[j][1] > 2 * tol]
    return ue, ug


def parse_bars(text, header=True):
    """(header, [(dim, birth, death)]) of a barcode file / string."""
    lines = text.split("\n")
    h = None
    if header:
        h = lines[0]
        lines = lines[1:]
    out = []
    for l in lines:
        if l == "":
            continue
        a = l.rstrip(",").split(",")
        if len(a) != 3:
            raise ValueError("barcode line " + repr(l))
        out.append((int(a[0]), float(a[1]), float(a[2])))
    return h, out
