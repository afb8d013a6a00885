"""Well-formed CSV texts together with the rows they denote."""
import math
from decimal import Decimal, getcontext

getcontext().prec = 1200


def number(rng, hard=True):
    """(value, text)"""
    k = rng.random()
    if hard and k > 0.985:
        return longnumber(rng)
    if k < 0.25:
        x = float(rng.randint(-1000, 1000))
    elif k < 0.6:
        x = rng.uniform(-100, 100)
    elif k < 0.7:
        x = rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e-5, 123456789.0, 5e-324 * 0, 1 / 3])
    elif k < 0.9:
        x = rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)
    else:
        x = rng.choice([1.7976931348623157e308, -2.2250738585072014e-308, 1e300, 9007199254740993.0, 2.0 ** 53, 1e22, 1e23, 4.35, 0.3])
    s = rng.random()
    if s < 0.5:
        t = repr(x)
    elif s < 0.6:
        t = "%.17e" % x
    elif s < 0.7:
        t = ("%.17e" % x).upper()
    elif s < 0.8:
        t = "%.17g" % x
    elif s < 0.86 and x == int(x) and abs(x) < 1e9:
        t = "%d" % x if x or not math.copysign(1, x) < 0 else "-0"
    elif s < 0.93:
        t = "%.3f" % x if abs(x) < 1e6 else repr(x)
    else:
        t = "%.6e" % x
    if rng.random() < 0.08 and not t.startswith("-"):
        t = "+" + t
    if rng.random() < 0.05:
        t = t.replace("0.", ".", 1) if t.startswith("0.") and len(t) > 2 and t[2].isdigit() else t
    if rng.random() < 0.04 and "." not in t and "e" not in t.lower():
        t += "."
    if rng.random() < 0.05 and t[0].isdigit():
        t = "00" + t
    x = float(t)
    if x != 0 and abs(x) < 2.3e-308 or math.isinf(x):   # the library number parser treats underflow as an error
        return 1.5, "1.5"
    return x, t


def longnumber(rng):
    """Many digits: all of a double, or next to the middle between two."""
    x = rng.uniform(-1, 1) * 10.0 ** rng.randint(-6, 6)
    t = Decimal(x)
    r = rng.random()
    if r < 0.6:
        t = (t + Decimal(math.nextafter(x, math.inf))) / 2
        d = Decimal((0, (1,), t.as_tuple().exponent - rng.choice([0, 1, 4, 12])))
        t += rng.choice([d, -d, 0])
    elif r < 0.8:
        t = Decimal("%d." % rng.randint(-9, 9) + "".join(rng.choice("0123456789") for _ in range(rng.choice([20, 24, 30, 60, 200]))))
    t = format(t, "f")
    return float(t), t


def pad(rng):
    return rng.choice(["", "", "", "", "", "", " ", "  ", "\t", " \t ", " \t ", rng.choice(["\v", "\f", " "])])


def text(rng, nrows, cols, ragged=False, spaces=True, crlf=None, blanks=True, trailing=True, lens=None):
    """(text, rows): lens optionally forces line lengths (without line end)."""
    rows, out = [], []
    eol = "\r\n" if (crlf if crlf is not None else rng.random() < 0.2) else "\n"
    usesp = spaces and rng.random() < 0.4
    tc = trailing and rng.random() < 0.3
    bl = blanks and rng.random() < 0.4
    for i in range(nrows):
        if bl and rng.random() < 0.3:
            for _ in range(rng.randint(1, 3)):
                out.append(rng.choice(["", "", " ", "\t", "  \t"]))
        m = rng.randint(1, cols) if ragged else cols
        vals = [number(rng) for _ in range(m)]
        line = ",".join((pad(rng) + t + pad(rng)) if usesp else t for _, t in vals)
        if tc and (not ragged or rng.random() < 0.5):
            line += "," + (pad(rng) if usesp else "")
        rows.append([x for x, _ in vals])
        if lens:
            want = lens[i % len(lens)]
            if want:
                vals, line = exact(rng, want)
                rows[-1] = vals
        out.append(line)
    if bl and rng.random() < 0.5:
        out.append("")
    s = eol.join(out)
    if rng.random() < 0.7:
        s += eol
    if bl and rng.random() < 0.2:
        s += rng.choice([eol, "  ", eol + eol, "\t" + eol])
    return s, rows


def exact(rng, n):
    """values and a line of exactly n characters (n >= 1)"""
    vals, line = [], ""
    while len(line) < n:
        room = n - len(line) - (1 if line else 0)
        if room <= 0:
            # one character left: lengthen the last number
            line += "5" if "." in line.rsplit(",", 1)[-1] else ("7" if "e" not in line.rsplit(",", 1)[-1] else "0")
            break
        w = min(room, rng.choice([1, 3, 8, 17]))
        if w == 1:
            t = str(rng.randint(0, 9))
        elif w == 2:
            t = str(rng.randint(10, 99))
        else:
            t = "%d." % rng.randint(0, 9) + str(rng.randrange(10 ** (w - 2), 2 * 10 ** (w - 2)))[1:]
        line += ("," if line else "") + t
    vals = [float(t) for t in line.split(",")]
    return vals, line
