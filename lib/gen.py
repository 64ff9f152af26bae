"""Seeded generators of inputs.  They only choose inputs; what is right is decided by the specification."""
import re

SPECIAL = [ord(c) for c in '"\\/[]{},:#. \t\n\r'] + [0, 1, 8, 11, 12, 31, 127, 128, 160, 0xE9, 0x7FF, 0x800, 0x2028, 0xD7FF, 0xE000,
                                                     0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F496, 0x10FFFF]
PLAIN = [ord(c) for c in "abcxyzABC0159eE-+_nulltrue"]
KEYS = [[97], [98], [], [99, 99], [97, 46, 98], [35, 49], [92, 120], [0xE9], [91], [34], [46], [35], [92], [32], [0x1F496, 10], [47], [97, 92]]


def cps(s):
    return [ord(c) for c in s]


def char(r):
    x = r.random()
    if x < 0.45:
        return r.choice(PLAIN)
    if x < 0.9:
        return r.choice(SPECIAL)
    c = r.randrange(0x110000)
    return c if not 0xD800 <= c < 0xE000 else 0x41


def text(r, n=8):
    return [char(r) for _ in range(r.randrange(n + 1))]


def key(r, keys=KEYS):
    x = r.random()
    return r.choice(keys) if x < 0.85 else text(r, 4) if x < 0.975 else long_text(r)


def long_text(r):
    """characters of several bytes everywhere"""
    return [r.choice([0xE9, 0x2028, 0x1F496, 0x10000, 0x7FF, 0xFFFD, 0x4E2D, 97]) for _ in range(r.choice([5, 12, 20, 40, 90, 300]))]


def nform(neg, digits, e):
    d = list(digits)
    while d and d[0] == 0:
        d.pop(0)
        e -= 1
    while d and d[-1] == 0:
        d.pop()
    return dict(neg=neg, d=d, e=e if d else 0)


def num(r, nonfinite=False):
    """a double by its shortest decimal, at most 15 digits"""
    x = r.random()
    neg = r.random() < 0.3
    if x < 0.4:
        return nform(neg, [int(c) for c in str(r.randrange(0, 300))], len(str(0)) - 1) if False else int_form(neg, r.randrange(0, 300))
    if x < 0.5:
        return dict(neg=neg, d=[], e=0)
    n = r.randrange(1, 16)
    d = [r.randrange(10) for _ in range(n)]
    if not any(d):
        d[0] = 7
    while d[0] == 0:
        d.pop(0)
    return nform(neg, d, r.choice([0, 1, 2, 3, 5, 10, 14, 15, 16, 20, 21, 22, 100, 280, -1, -2, -3, -5, -7, -20, -100, -280]))


def int_form(neg, n):
    s = str(n)
    return nform(neg, [int(c) for c in s], len(s) - 1) if n else dict(neg=neg, d=[], e=0)


def any_double(r):
    """the shortest decimal of any finite double"""
    import struct, math
    import num as N
    x = r.random()
    while True:
        if x < 0.4:
            f = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
        elif x < 0.5:
            f = r.choice([5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, 0.1, 1 / 3, 2.0 ** 53, 2.0 ** 53 + 2,
                          2.0 ** 63, 2.0 ** 64, 1e21, 1e22, 1e23, 9007199254740993.0, 123456789012345680.0, 1e-7, 1.5e-7])
        elif x < 0.7:
            f = float(r.randrange(1 << r.randrange(1, 70))) * r.choice([1, -1])
        elif x < 0.85:
            f = r.randrange(1, 10 ** 6) / 10 ** r.randrange(1, 12)
        else:
            f = math.ldexp(r.choice([1, 3, 2 ** 53 - 1, 2 ** 52 + 1]), r.randrange(-1074, 970))
        if math.isfinite(f):
            return N.short(f)
        x = r.random()


def leaf(r, strings=True, numf=num):
    x = r.random()
    if x < 0.2:
        return dict(t="null")
    if x < 0.35:
        return dict(t="bool", b=r.random() < 0.5)
    if x < 0.65 or not strings:
        return dict(t="num", n=numf(r))
    return dict(t="str", s=text(r) if r.random() < 0.97 else long_text(r))


def doc(r, depth=3, width=4, keys=KEYS, leaff=leaf):
    x = r.random()
    if depth <= 0 or x < 0.25:
        return leaff(r)
    if x < 0.55:
        return dict(t="arr", a=[doc(r, depth - 1, width, keys, leaff) for _ in range(r.randrange(width + 1))])
    m = {}
    for _ in range(r.randrange(width + 1)):
        k = tuple(key(r, keys))
        m.setdefault(k, []).append(doc(r, depth - 1, width, keys, leaff))
        if r.random() < 0.2:
            m[k].append(doc(r, depth - 2, width, keys, leaff))
    return obj(m)


def size(r, top):
    """mostly small, each order of magnitude equally likely"""
    import math
    return int(math.exp(r.uniform(0, math.log(top + 1))))


def big_doc(r, top=300, keys=KEYS, leaff=leaf):
    """one thing about the value is large: elements, keys, values of a key, nesting, a text or a key"""
    n = size(r, top)
    x = r.randrange(8)
    one = lambda: doc(r, r.choice([0, 0, 0, 1]), 3, keys, leaff)
    if x == 0:
        v = dict(t="arr", a=[one() for _ in range(n)])
    elif x == 1:
        v = obj({tuple(cps(r.choice(["k%d", "%d", "%03d", "é%d"]) % i)): [one()] for i in range(n)})
    elif x == 2:
        m = {tuple(key(r, keys)): [one() for _ in range(n)]}
        for _ in range(r.randrange(3)):
            m.setdefault(tuple(key(r, keys)), []).append(one())
        v = obj(m)
    elif x == 3:
        v = one()
        for _ in range(min(n, 48)):
            if r.random() < 0.5:
                v = dict(t="arr", a=[one() for _ in range(r.choice([0, 0, 1]))] + [v] + [one() for _ in range(r.choice([0, 0, 1]))])
            else:
                v = obj({tuple(key(r, keys)): [one() for _ in range(r.choice([0, 0, 1]))] + [v]})
    elif x == 4:
        v = dict(t="str", s=[char(r) for _ in range(n)])
    elif x == 5:
        c = char(r)
        v = dict(t="str", s=[c if r.random() < 0.95 else char(r) for _ in range(n)])
    elif x == 6:
        v = obj({tuple([char(r) for _ in range(n)]): [one()], tuple(key(r, keys)): [one()]})
    else:
        v = dict(t="arr", a=[dict(t="arr", a=[one() for _ in range(r.randrange(4))]) if r.random() < 0.5 else obj({tuple(key(r, keys)): [one()]}) for _ in range(n // 2)])
    y = r.random()
    if y < 0.2:
        return dict(t="arr", a=[one(), v])
    if y < 0.4:
        return obj({(97,): [one(), v], (98,): [one()]})
    return v


def obj(m):
    return dict(t="obj", m=[[list(k), m[k]] for k in sorted(m)])


# ------------------------------------------------------------------ texts
def ws(r, p=0.25):
    s = []
    while r.random() < p:
        s.append(r.choice([32, 9, 10, 13]))
    return s


def write_str(r, s):
    out = [34]
    for c in s:
        x = r.random()
        short = {34: 34, 92: 92, 47: 47, 8: 98, 12: 102, 10: 110, 13: 114, 9: 116}
        if c in short and x < 0.6:
            out += [92, short[c]]
        elif c in (34, 92) or c < 32 or x < 0.15:
            def u(h):
                t = "%04x" % h
                return [92, 117] + [ord(q.upper() if r.random() < 0.5 else q) for q in t]
            if c > 0xFFFF:
                out += u(0xD800 + ((c - 0x10000) >> 10)) + u(0xDC00 + ((c - 0x10000) & 0x3FF))
            else:
                out += u(c)
        else:
            out.append(c)
    return out + [34]


def write_num(r, n):
    """some spelling of the decimal n"""
    d, e = n["d"] or [0], n["e"]
    sign = "-" if n["neg"] else ""
    ds = "".join(map(str, d))
    x = r.random()
    if x < 0.5 and -8 < e < 25:
        if e < 0:
            s = "0." + "0" * (-e - 1) + ds
        elif e >= len(ds) - 1:
            s = ds + "0" * (e - len(ds) + 1)
        else:
            s = ds[:e + 1] + "." + ds[e + 1:]
        if "." in s and r.random() < 0.2:
            s += "0" * r.randrange(1, 3)
        elif "." not in s and r.random() < 0.2:
            s += "." + "0" * r.randrange(1, 3)
    else:
        cut = r.randrange(1, len(ds) + 1) if ds[0] != "0" else 1
        s = ds[:cut] + ("." + ds[cut:] if cut < len(ds) else "")
        ex = e - (cut - 1)
        s += r.choice("eE") + (r.choice(["+", ""]) if ex >= 0 else "-") + "0" * r.choice([0, 0, 0, 1, 2]) + str(abs(ex))
    return cps(sign + s)


def write(r, v, p=0.25):
    t = v["t"]
    if t == "null":
        return cps("null")
    if t == "bool":
        return cps("true" if v["b"] else "false")
    if t == "num":
        return write_num(r, v["n"])
    if t == "str":
        return write_str(r, v["s"])
    out = []
    if t == "arr":
        out += [91] + ws(r, p)
        for i, x in enumerate(v["a"]):
            if i:
                out += [44] + ws(r, p)
            out += write(r, x, p) + ws(r, p)
        return out + [93]
    # members in any order that keeps the order of the values of one key
    queue = [[k, list(vs)] for k, vs in v["m"]]
    ms = []
    while queue:
        q = r.choice(queue)
        ms.append((q[0], q[1].pop(0)))
        if not q[1]:
            queue.remove(q)
    out += [123] + ws(r, p)
    for i, (k, x) in enumerate(ms):
        if i:
            out += [44] + ws(r, p)
        out += write_str(r, k) + ws(r, p) + [58] + ws(r, p) + write(r, x, p) + ws(r, p)
    return out + [125]


def full_text(r, v, p=0.25):
    return ws(r, p) + write(r, v, p) + ws(r, p)


STRUCT = [ord(c) for c in '[]{},:"\\ 01-+.eEntfu\n\'/*'] + [0x1F, 0xA0, 0x0B, 0x0C, 0xFEFF, 0x2028, 0]


def mutate(r, t):
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not t:
            return [r.choice(STRUCT)]
        i = r.randrange(len(t))
        x = r.random()
        if x < 0.25:
            del t[i]
        elif x < 0.5:
            t.insert(i, r.choice(STRUCT))
        elif x < 0.6:
            t.insert(i, t[i])
        elif x < 0.7:
            t[i] = r.choice(STRUCT)
        elif x < 0.8:
            t = t[:i]
        elif x < 0.85:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif x < 0.92:
            j = min(len(t), i + r.randrange(1, 6))
            t[i:i] = t[i:j]
        else:
            t += r.choice([[44], [93], [125], [34], [32, 49], cps("//x"), [0], cps("null"), [44, 32], [58]])
    return t


# ------------------------------------------------------------------ paths and operations
# the steps IdxCap + 1, .. of JPath and the indices they stand for
CAP = 1000000
FAR = [2**31, 2**32, 2**32 + 1, 2**33, 2**63, 2**63 + 1, 2**64 - 1]


def write_path(segs):
    out = []
    for i, s in enumerate(segs):
        if i:
            out.append(46)
        if s["w"] == "idx":
            out += cps("#" + str(FAR[s["i"] - CAP - 1] if s["i"] > CAP else s["i"]))
        else:
            k = s["k"]
            if k and k[0] in (35, 92):
                out.append(92)
            for c in k:
                out += [92, 46] if c == 46 else [c]
    return out


def writable(segs):
    return segs and segs != [dict(w="key", k=[])] and not any(s["w"] == "key" and s["k"] and s["k"][-1] == 92 for s in segs[:-1])


def depth_of(v):
    return 0 if v["t"] not in ("arr", "obj") else 1 + max([depth_of(x) for x in (v["a"] if v["t"] == "arr" else [y for _, vs in v["m"] for y in vs[-1:]])], default=0)


def some_path(r, v, keys=KEYS, maxlen=4, hit=0.75):
    """a path that mostly follows the value"""
    segs = []
    if v is not None and r.random() < 0.3 and depth_of(v) > maxlen:
        maxlen, hit = depth_of(v) + 1, 0.99
    n = r.randrange(1, maxlen + 1)
    for _ in range(n):
        x = r.random()
        if v is not None and x < hit and v["t"] == "arr" and v["a"]:
            i = r.randrange(len(v["a"]))
            segs.append(dict(w="idx", i=i))
            v = v["a"][i]
        elif v is not None and x < hit and v["t"] == "obj" and v["m"]:
            e = r.choice(v["m"])
            segs.append(dict(w="key", k=e[0]))
            v = e[1][-1]
        else:
            if v is not None and v["t"] == "arr":
                segs.append(dict(w="idx", i=len(v["a"]) + r.randrange(3)) if r.random() < 0.8 else dict(w="key", k=key(r, keys)))
            elif v is not None and v["t"] == "obj":
                segs.append(dict(w="key", k=key(r, keys)) if r.random() < 0.8 else dict(w="idx", i=r.randrange(3)))
            else:
                segs.append(dict(w="key", k=key(r, keys)) if r.random() < 0.5 else dict(w="idx", i=r.randrange(4)))
            v = None
    return segs


def far(r, p):
    """sometimes with an index beyond everything"""
    if r.random() < 0.05:
        i = r.randrange(len(p))
        return p[:i] + [dict(w="idx", i=r.choice([256, 65536, CAP + r.randrange(len(FAR) + 1)]))] + p[i:r.choice([i, len(p)])]
    return p


def random_path_text(r, n=10):
    return [r.choice([46, 46, 92, 92, 35, 97, 98, 48, 49, 50, 43, 45, 32, 0xE9, 0x1F496, 34]) for _ in range(r.randrange(n + 1))]


def step_text(r, v, keys=KEYS, aim=None):
    for _ in range(20):
        p = some_path(r, v, keys)
        if aim:
            p = aim(r, p)
        if writable(p):
            return p, write_path(p)
    return [dict(w="key", k=[97])], [97]


NORMAL = dict(read=4, get=2, set=3, update=3, take=3, mut=3, local=6, text=1, bad=1)


def history(r, length, weights=NORMAL, depth=3, keys=KEYS, numf=num, top=None):
    """a value and operations; the value is tracked roughly, only to aim the paths"""
    lf = lambda q: leaf(q, True, numf)
    v = big_doc(r, top, keys, lf) if top else doc(r, depth, 4, keys, lf)
    ops = []
    cur = v
    kinds, ws_ = list(weights), list(weights.values())
    for _ in range(length):
        k = r.choices(kinds, ws_)[0]
        x = doc(r, 2, 3, keys, lf)
        via = r.randrange(8)
        if k == "read":
            p = far(r, some_path(r, cur, keys))
            ops.append(dict(o=r.choice(["find", "find", "index"]), p=p, via=via))
        elif k == "get":
            ops.append(dict(o="get", s=step_text(r, cur, keys, far)[1]))
        elif k in ("set", "update"):
            p, s = step_text(r, cur, keys)
            o = dict(o="set", s=s, x=x, via=via) if k == "set" else dict(o="update", p=p, x=x, via=via)
            if r.random() < 0.25:
                o["y"] = doc(r, 1, 2, keys, lf)
            ops.append(o)
            cur = track_set(cur, p, o.get("y", x))
        elif k == "take":
            p, s = step_text(r, cur, keys, far)
            ops.append(dict(o="del", s=s) if r.random() < 0.5 else dict(o="discard", p=p, via=via % 6))
            cur = track_del(cur, p)
        elif k == "mut":
            p = far(r, some_path(r, cur, keys, hit=0.92))
            ops.append(dict(o=r.choice(["find_mut", "index_mut"]), p=p, x=x, via=via))
            if look(cur, p) is not None:
                cur = track_set(cur, p, x)
        elif k == "local":
            o = r.choice(["insert", "append", "append", "delete", "merge"] if cur["t"] == "obj" else ["push", "push", "replace", "remove"]
                         if cur["t"] == "arr" else ["insert", "append", "delete", "merge", "push", "replace", "remove"])
            if r.random() < 0.05:
                o = r.choice(["insert", "push", "remove", "merge"])
            if o in ("insert", "append", "delete", "merge"):
                kk = r.choice(cur["m"])[0] if cur["t"] == "obj" and cur["m"] and r.random() < 0.6 else key(r, keys)
                op = dict(o=o, k=kk)
                if o in ("insert", "append"):
                    op.update(x=x, via=r.randrange(3))
                    cur = local(cur, o, kk, x)
                elif o == "delete":
                    cur = local(cur, o, kk, None)
            else:
                n = len(cur["a"]) if cur["t"] == "arr" else 0
                op = dict(o=o) if o == "push" else dict(o=o, i=r.randrange(n + 2) if r.random() < 0.95 else r.choice([256, 65536, CAP + r.randrange(len(FAR) + 1)]))
                if o in ("push", "replace"):
                    op["x"] = x
                if cur["t"] == "arr":
                    a = list(cur["a"])
                    if o == "push":
                        a.append(x)
                    elif op["i"] < n:
                        if o == "replace":
                            a[op["i"]] = x
                        else:
                            del a[op["i"]]
                    cur = dict(t="arr", a=a)
            ops.append(op)
        elif k == "text":
            ops.append(dict(o=r.choice(["print", "reparse"])))
        else:
            ops.append(r.choice([dict(o="get", s=[]), dict(o="set", s=cps("a.#x"), x=x, via=0), dict(o="del", s=cps("#")), dict(o="get", s=cps("#-1.a")),
                                 dict(o="set", s=cps("#1a"), x=x, via=1), dict(o="set", s=[], x=x, via=1), dict(o="del", s=cps("b.#"))]))
    for o in ops:
        # macros are called with at most six steps
        if len(o.get("p", [])) > 6:
            o["via"] = 0
    return dict(k="hist", v=v, ops=ops, **({"api": 1} if r.random() < 0.3 else {}))


def members(v):
    return {tuple(k): list(vs) for k, vs in v["m"]} if v["t"] == "obj" else {}


def local(v, o, k, x):
    if v["t"] != "obj":
        return v
    m = members(v)
    k = tuple(k)
    if o == "insert":
        m[k] = [x]
    elif o == "append":
        m.setdefault(k, []).append(x)
    else:
        m.pop(k, None)
    return obj(m)


def look(v, p):
    for s in p:
        if s["w"] == "key":
            m = members(v)
            if tuple(s["k"]) not in m:
                return None
            v = m[tuple(s["k"])][-1]
        else:
            if v["t"] != "arr" or s["i"] >= len(v["a"]):
                return None
            v = v["a"][s["i"]]
    return v


def track_set(v, p, x):
    if not p:
        return x
    s = p[0]
    if s["w"] == "key":
        m = members(v)
        k = tuple(s["k"])
        old = m.get(k)
        if len(p) == 1:
            m[k] = [x]
        else:
            m[k] = (old[:-1] if old else []) + [track_set(old[-1] if old else dict(t="null"), p[1:], x)]
        return obj(m)
    a = list(v["a"]) if v["t"] == "arr" else []
    while len(a) <= s["i"]:
        a.append(dict(t="null"))
    a[s["i"]] = track_set(a[s["i"]], p[1:], x)
    return dict(t="arr", a=a)


def track_del(v, p):
    if look(v, p) is None:
        return v
    s = p[0]
    if s["w"] == "key":
        m = members(v)
        k = tuple(s["k"])
        if len(p) == 1:
            del m[k]
        else:
            m[k] = m[k][:-1] + [track_del(m[k][-1], p[1:])]
        return obj(m)
    a = list(v["a"])
    if len(p) == 1:
        del a[s["i"]]
    else:
        a[s["i"]] = track_del(a[s["i"]], p[1:])
    return dict(t="arr", a=a)


# ------------------------------------------------------------------ native types
BITS = dict(u8=8, u16=16, u32=32, u64=64, u128=128, usize=64, i8=8, i16=16, i32=32, i64=64, i128=128, isize=64)


def bounds(n):
    b = BITS[n]
    return (0, 2 ** b - 1) if n[0] == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)


def int_val(r, n):
    lo, hi = bounds(n)
    x = r.random()
    if x < 0.25:
        return r.choice([lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, hi // 2 + 1])
    if x < 0.5:
        return max(lo, min(hi, r.randrange(-300, 300)))
    if x < 0.75:
        return max(lo, min(hi, 2 ** r.randrange(BITS[n]) + r.choice([-1, 0, 1])))
    v = r.randrange(2 ** r.randrange(1, BITS[n] + 1))
    return max(lo, min(hi, v if r.random() < 0.7 else -v))


def int_nf(v):
    return int_form(v < 0, abs(v))


def key_text(r, k, plain=True):
    if k == "str":
        return text(r, 4) if r.random() < 0.5 else r.choice(KEYS)
    if k == "bool":
        return cps(r.choice(["true", "false"]))
    return cps(str(int_val(r, k)))


def f32_of(r):
    import struct, math
    while True:
        f = struct.unpack("<f", struct.pack("<I", r.getrandbits(32)))[0] if r.random() < 0.6 else struct.unpack("<f", struct.pack("<f", r.choice([0.1, 1.5, 3, 16777217, 1e-40, 3.4028234e38, 1 / 3, 0.0, -0.0])))[0]
        if math.isfinite(f):
            return f


def native(r, ty, d=0):
    """(native value, whether every number in it is exactly a double)"""
    import num as N
    c = ty["c"]
    if c == "str":
        return dict(n="str", s=text(r) if r.random() < 0.95 else text(r, 150)), True
    if c == "bool":
        return dict(n="bool", b=r.random() < 0.5), True
    if c == "json":
        return dict(n="json", v=doc(r, 2, 3)), True
    if c == "f64":
        return dict(n="num", v=any_double(r)), True
    if c == "f32":
        return dict(n="num", v=N.short(f32_of(r))), True
    if c == "int":
        v = int_val(r, ty["r"])
        return dict(n="num", v=int_nf(v)), int(float(v)) == v
    if c == "opt":
        if r.random() < 0.35 or ty["e"]["c"] == "opt":
            return dict(n="none"), True
        while True:
            v, e = native(r, ty["e"], d + 1)
            if not (v["n"] == "json" and v["v"]["t"] == "null"):
                return dict(n="some", v=v), e
    if c == "opq":
        return dict(n="opq", v=r.choice([7, 8])), False
    if c == "struct":
        vs = [native(r, f["e"], d + 1) for f in ty["fs"]]
        return dict(n="struct", f=[v for v, _ in vs]), all(e for _, e in vs) and not any(a["a"] in ("key", "ignore") for f in ty["fs"] for a in f["at"])
    n = r.randrange(4) if d or r.random() < 0.95 else size(r, 120)
    if c == "vec":
        vs = [native(r, ty["e"], d + 1) for _ in range(n)]
        return dict(n="list", a=[v for v, _ in vs]), all(e for _, e in vs)
    ps = [(key_text(r, ty["k"]), native(r, ty["e"], d + 1)) for _ in range(n)]
    if c == "map":
        m = {}
        for k, v in ps:
            m[tuple(k)] = v
        ps = [(list(k), m[k]) for k in sorted(m)]
    else:
        if ps and r.random() < 0.5:
            ps.append((ps[0][0], native(r, ty["e"], d + 1)))
    # equal keys adjacent and ascending: the order in which the harness reports
    ps2 = sorted(ps, key=lambda p: p[0])
    return dict(n="pairs" if c == "pairs" else "map", a=[[k, v[0]] for k, v in ps2]), all(v[1] for _, v in ps2)


def canon_int(k):
    s = "".join(map(chr, k))
    t = s[1:] if s[:1] in ("+", "-") else s
    if t.isascii() and t.isdigit():
        return int(s)
    return None


def collides(v):
    if v["t"] == "arr":
        return any(map(collides, v["a"]))
    if v["t"] == "obj":
        seen = [canon_int(k) for k, _ in v["m"]]
        seen = [s for s in seen if s is not None]
        return len(seen) != len(set(seen)) or any(collides(x) for _, vs in v["m"] for x in vs)
    return False


def for_type(r, ty, numf, miss=0.06, nonfinite=False):
    """a JSON value that mostly decodes as the type"""
    if r.random() < miss:
        return doc(r, 2, 3, KEYS + [cps("1"), cps("true")], lambda q: leaf(q, True, numf))
    c = ty["c"]
    if c == "str":
        return dict(t="str", s=text(r) if r.random() < 0.95 else long_text(r))
    if c == "bool":
        return dict(t="bool", b=r.random() < 0.5)
    if c == "json":
        return doc(r, 2, 3)
    if c in ("f64", "f32", "int"):
        if nonfinite and r.random() < 0.1:
            return dict(t="nf", w=r.choice(["nan", "inf", "ninf"]))
        if c == "int" and r.random() < 0.5:
            import num as N
            lo, hi = bounds(ty["r"])
            f = float(int_val(r, ty["r"]))
            f = r.choice([f, f + 0.5, f - 0.5, f * 1.0000001, f * 2, -f])
            return dict(t="num", n=N.short(f))
        return dict(t="num", n=numf(r))
    if c == "opt":
        return dict(t="null") if r.random() < 0.3 else for_type(r, ty["e"], numf, miss, nonfinite)
    if c == "struct":
        return for_struct(r, ty, numf, miss, nonfinite)
    n = r.randrange(4) if r.random() < 0.96 else size(r, 120)
    if n > 3:
        miss = miss / n
    if c == "vec":
        return dict(t="arr", a=[for_type(r, ty["e"], numf, miss, nonfinite) for _ in range(n)])
    m = {}
    for _ in range(n):
        k = tuple(key_text(r, ty["k"]) if r.random() > miss / 2 else text(r, 3))
        m.setdefault(k, []).append(for_type(r, ty["e"], numf, miss, nonfinite))
        if r.random() < 0.3:
            m[k].append(for_type(r, ty["e"], numf, miss, nonfinite))
        if c == "map" and r.random() < 0.3:
            # an earlier value that the map does not see, of any kind
            m[k].insert(0, doc(r, 1, 2))
    return obj(m)


def lit_text(s):
    """the text of a Rust string literal, for the keys of objects to decode"""
    import ast
    t = "".join(map(chr, s))
    if t[0] == "r":
        n = t.index('"') - 1
        return cps(t[n + 2:len(t) - n - 1])
    t = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: "\\U%08x" % int(m.group(1).replace("_", ""), 16), t)
    return cps(ast.literal_eval(t))


def field_key(f):
    ks = [a["s"] for a in f["at"] if a["a"] == "key"]
    return tuple(lit_text(ks[0]) if ks else f["nm"])


def ignored(f):
    return any(a["a"] == "ignore" for a in f["at"])


def for_struct(r, ty, numf, miss, nonfinite):
    m = {}
    for f in ty["fs"]:
        if ignored(f):
            if r.random() < 0.3:
                m.setdefault(field_key(f), []).append(doc(r, 1, 2))
            continue
        if r.random() < miss / 2:
            continue
        vs = m.setdefault(field_key(f), [])
        if r.random() < 0.2:
            vs.append(doc(r, 1, 2))
        vs.append(for_type(r, f["e"], numf, miss, nonfinite))
    for _ in range(r.choice([0, 0, 1, 3])):
        k = tuple(r.choice([text(r, 3), cps("r#type"), cps("a"), cps("key")]))
        if k not in m and all(field_key(f) != k for f in ty["fs"]):
            m[k] = [doc(r, 1, 2)]
    return obj(m)


def ambiguous(ty):
    """errors may come from different members of a map, in no definite order"""
    return (ty["c"] in ("map", "pairs") and has_struct(ty["e"])) or any(ambiguous(e) for e in inner(ty))


def inner(ty):
    return [f["e"] for f in ty["fs"]] if ty["c"] == "struct" else [ty["e"]] if "e" in ty else []


def has_struct(ty):
    return ty["c"] == "struct" or any(has_struct(e) for e in inner(ty))


# ------------------------------------------------------------------ number literals
def dec_text(x):
    """plain decimal text of a Decimal, optionally rescaled with an exponent"""
    return format(x, "f")


def literal(r):
    """a number literal chosen to be hard to round"""
    from decimal import Decimal
    import math, struct
    import num as N
    x = r.random()
    sign = "-" if r.random() < 0.3 else ""
    if x < 0.55:
        # at, just above or just below the middle between two doubles
        while True:
            if r.random() < 0.6:
                f = math.ldexp(r.randrange(2 ** 52, 2 ** 53), r.choice([-52, -40, -10, 0, 1, 11, 60, -120, 900, -1074 + 1, r.randrange(-1073, 970)]))
            else:
                f = struct.unpack("<d", struct.pack("<Q", r.choice([r.randrange(0, 40), r.getrandbits(52), r.getrandbits(63)])))[0]
            if math.isfinite(f) and f < N.MAXF:
                break
        g = math.nextafter(f, math.inf)
        mid = (Decimal(f) + Decimal(g)) / 2
        y = r.random()
        s = dec_text(mid)
        if y < 0.4:
            pass
        elif y < 0.7:
            s = s + ("" if "." in s else ".") + "0" * r.randrange(3) + "1"
        else:
            dd = list(s)
            for j in range(len(dd) - 1, -1, -1):
                if dd[j] in "123456789":
                    dd[j] = str(int(dd[j]) - 1)
                    break
            s = "".join(dd)
            if "." in s:
                s += "9"
    elif x < 0.65:
        lim = 2 ** 1024 - 2 ** 970
        s = str(lim + r.choice([0, -1, 1, 10 ** 290, -10 ** 290, -10 ** 200]))
        if r.random() < 0.3:
            s += "." + r.choice(["0", "00", "5"])
        if r.random() < 0.4:
            s = s[0] + "." + s[1:] + "e308"
    elif x < 0.75:
        s = r.choice(["4.9406564584124654", "2.4703282292062327", "2.4703282292062328", "2.47032822920623272088", "7.4109846876186981", "1", "9.99", "2.2250738585072011", "2.2250738585072014", "1.7976931348623157", "1.7976931348623159"]) \
            + r.choice("eE") + r.choice(["-324", "-323", "-308", "308", "-325", "-400", "309", "-1000", "+308", "+0308"])
    elif x < 0.85:
        s = "".join(r.choice("0123456789") for _ in range(r.randrange(1, 40))).lstrip("0") or "0"
        if r.random() < 0.6:
            s += "." + "".join(r.choice("0123456789") for _ in range(r.randrange(1, 40)))
        if r.random() < 0.4:
            s += r.choice("eE") + r.choice(["", "+", "-"]) + str(r.randrange(0, 330))
    else:
        s = r.choice(["0", "0.0", "0e5", "0.000e-999", "0.1", "9007199254740993", "9007199254740992.5", "1e23", "8.5e22", "123456789012345678901234567890", "0.30000000000000004", "1e0", "1E+2", "10e-1", "5e-324", "3e-324", "2e-324",
                      "179769313486231570000000000000000000000e270", "0." + "0" * 320 + "1", "1" + "0" * 308, "1" + "0" * 309, "0." + "9" * 30, "4503599627370496.5", "4503599627370497.5", "1e400", "1e-400", "0e400", "1e99999", "1e-99999"])
    return cps(sign + s)


def near(r, v):
    """v with one small change somewhere"""
    import copy, math
    import num as N
    v = copy.deepcopy(v)
    places = []

    def go(x, put):
        places.append((x, put))
        if x["t"] == "arr":
            for i in range(len(x["a"])):
                go(x["a"][i], lambda y, i=i: x["a"].__setitem__(i, y))
        elif x["t"] == "obj":
            for e in x["m"]:
                for j in range(len(e[1])):
                    go(e[1][j], lambda y, e=e, j=j: e[1].__setitem__(j, y))
    root = [v]
    go(v, lambda y: root.__setitem__(0, y))
    x, put = r.choice(places)
    t = x["t"]
    if r.random() < 0.1 or t == "null":
        put(r.choice([dict(t="null"), dict(t="bool", b=False), dict(t="num", n=nform(False, [], 0)), dict(t="str", s=[]), dict(t="arr", a=[]), dict(t="obj", m=[])]))
    elif t == "bool":
        x["b"] = not x["b"]
    elif t == "num":
        n = x["n"]
        f = float(("-" if n["neg"] else "") + "".join(map(str, n["d"][:1] or [0])) + "." + "".join(map(str, n["d"][1:])) + "e%d" % n["e"])
        if not n["d"] or r.random() < 0.3:
            n["neg"] = not n["neg"]
        else:
            f = math.nextafter(f, r.choice([0.0, math.inf, -math.inf]))
            put(dict(t="num", n=N.short(f) if math.isfinite(f) and f else nform(False, [1], 0)))
    elif t == "nf":
        x["w"] = r.choice(["nan", "inf", "ninf"])
    elif t == "str":
        s = x["s"]
        if not s or r.random() < 0.3:
            s.insert(r.randrange(len(s) + 1), char(r))
        elif r.random() < 0.5:
            s[r.randrange(len(s))] = char(r)
        else:
            s.pop(r.randrange(len(s)))
    else:
        lists = [x["a"]] if t == "arr" else [e[1] for e in x["m"]]
        y = r.random()
        if t == "obj" and (y < 0.3 or not lists):
            m = {tuple(e[0]): e[1] for e in x["m"]}
            if m and r.random() < 0.7:
                k = r.choice(sorted(m))
                vs = m.pop(k)
                if r.random() < 0.6:
                    m.setdefault(tuple(key(r)), vs)
            else:
                m.setdefault(tuple(key(r)), [dict(t="null")])
            put(obj(m))
        else:
            a = r.choice(lists)
            if y < 0.5 and len(a) > 1:
                i = r.randrange(len(a) - 1)
                a[i], a[i + 1] = a[i + 1], a[i]
            elif y < 0.7 and len(a) > (0 if t == "arr" else 1):
                a.pop(r.randrange(len(a)))
            elif y < 0.85 and a:
                a.insert(r.randrange(len(a) + 1), copy.deepcopy(r.choice(a)))
            else:
                a.insert(r.randrange(len(a) + 1), dict(t="null"))
    return root[0]
