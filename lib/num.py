"""Exact decimals of doubles and their neighbours, for the specification's rounding relation."""
import math, struct
from decimal import Decimal, getcontext

getcontext().prec = 1200


def nf(dec, neg=False):
    """normal form of a Decimal magnitude"""
    sign, digits, exp = dec.as_tuple()
    ds = list(digits)
    while ds and ds[0] == 0:
        ds.pop(0)
    e = len(ds) - 1 + exp
    while ds and ds[-1] == 0:
        ds.pop()
    if not ds:
        return dict(neg=neg, d=[], e=0)
    return dict(neg=neg, d=ds, e=e)


def to_float(n):
    if not n["d"]:
        return -0.0 if n["neg"] else 0.0
    d = n["d"]
    return float(("-" if n["neg"] else "") + str(d[0]) + "." + ("".join(map(str, d[1:])) or "0") + "e" + str(n["e"]))


def short(f):
    """the normal form of the shortest decimal of a double; of two equally near ones the larger, as Rust does"""
    d = Decimal(repr(abs(f)))
    n = nf(d, math.copysign(1, f) < 0)
    if n["d"]:
        unit = Decimal(1).scaleb(n["e"] - len(n["d"]) + 1)
        if Decimal(abs(f)) - d == unit / 2 and float(d + unit) == abs(f):
            n = nf(d + unit, n["neg"])
    return n


MAXF = float.fromhex("0x1.fffffffffffffp+1023")
TWO1024 = Decimal(2) ** 1024
MAX32 = float.fromhex("0x1.fffffep+127")


def entry(n):
    f = abs(to_float(n))
    if f == 0:
        return dict(s=n, x=nf(Decimal(0)), lo=nf(Decimal(0)), hi=nf(Decimal(5e-324)), ev=True)
    lo = math.nextafter(f, 0.0)
    hi = Decimal(math.nextafter(f, math.inf)) if f < MAXF else TWO1024
    bits = struct.unpack("<Q", struct.pack("<d", f))[0]
    return dict(s=n, x=nf(Decimal(f)), lo=nf(Decimal(lo)), hi=nf(hi), ev=bits & 1 == 0)


def entry32(n):
    f = abs(to_float(n))
    def of(b):
        return struct.unpack("<f", struct.pack("<I", b))[0]
    b = struct.unpack("<I", struct.pack("<f", f))[0]
    if of(b) != f:
        # not an f32 at all: an entry that nothing is nearest to
        return None
    if f == 0:
        return dict(s=n, x=nf(Decimal(0)), lo=nf(Decimal(0)), hi=nf(Decimal(of(1))), ev=True)
    hi = Decimal(of(b + 1)) if f < MAX32 else Decimal(2) ** 128
    return dict(s=n, x=nf(Decimal(f)), lo=nf(Decimal(of(b - 1))), hi=nf(hi), ev=b & 1 == 0)


def simple(n):
    return len(n["d"]) <= 15 and -290 <= n["e"] <= 290


def walk(x, out):
    if isinstance(x, dict):
        if "neg" in x:
            out.append(x)
        else:
            for v in x.values():
                walk(v, out)
    elif isinstance(x, list):
        for v in x:
            walk(v, out)


def add_tabs(c, every=False):
    """entries for the doubles in a case; `every`: also for short ones"""
    k = c["k"]
    if k in ("accept", "path", "hist", "make", "mixed", "dead"):
        return
    ns = []
    has32 = "ty" in c and '"f32"' in repr(c["ty"]).replace("'", '"')
    for f in ("obs", "v"):
        if f in c:
            walk(c[f], ns)
    tab, tab32, seen = [], [], set()
    for n in ns:
        key = (n["neg"], tuple(n["d"]), n["e"])
        if key in seen or len(n["d"]) > 17:
            continue
        seen.add(key)
        if every or not simple(n) or n["e"] >= 15:
            tab.append(entry(n))
        if has32:
            try:
                e = entry32(n)
            except OverflowError:
                e = None
            if e:
                tab32.append(e)
    if tab:
        c["tab"] = tab
    if tab32:
        c["tab32"] = tab32
