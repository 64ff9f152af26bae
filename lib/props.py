"""The checks, one per property."""
import json, os, re, subprocess
import gen, derive, quote, item, refuse, num as N
from core import Violation, ToolError, BUILD, VERIF

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


class Ref(str):
    pass


def cfg(consts, invariants=("Emit",), spec="Spec"):
    s = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n"
    for k, v in consts.items():
        if isinstance(v, Ref):
            s += f"CONSTANT {k} <- {v}\n"
        else:
            t = {True: "TRUE", False: "FALSE"}[v] if isinstance(v, bool) else f'"{v}"' if isinstance(v, str) else str(v)
            s += f"CONSTANT {k} = {t}\n"
    return s + "".join(f"INVARIANT {i}\n" for i in invariants)


# ---------------------------------------------------------------- texts
def parse_cfg(alpha, n, prefix="NoPrefix", kind="accept"):
    return cfg(dict(Alphabet=Ref(alpha), MaxLen=n, Prefix=Ref(prefix), Kind=kind, CheckGrammar=True), ["GrammarAgrees", "ValueInv", "Emit"])


def texts(r, n, valid=0.5, depth=4, width=4, numf=gen.num, top=0):
    lf = lambda q: gen.leaf(q, True, numf)
    for _ in range(n):
        t = gen.full_text(r, gen.big_doc(r, top, leaff=lf) if top else gen.doc(r, depth, width, leaff=lf), r.choice([0, 0.1, 0.3]))
        if r.random() > valid:
            t = gen.mutate(r, t)
        yield t


@check("J01")
def j01(c):
    c.harness()
    q = c.quick
    c.vectors("struct", "MCParse", parse_cfg("AlphaStruct", 7 if q else 8))
    c.vectors("scan", "MCParse", parse_cfg("AlphaScan", 6 if q else 8))
    c.vectors("strings", "MCParse", parse_cfg("AlphaStr", 3 if q else 4, "InString"))
    c.vectors("hex", "MCParse", parse_cfg("AlphaHex", 4 if q else 5, "InString"))
    c.vectors("numbers", "MCParse", parse_cfg("AlphaNum", 6 if q else 7))
    c.vectors("numbers_in_array", "MCParse", parse_cfg("AlphaNumArr", 5 if q else 6, "InArray"))
    c.vectors("literals", "MCParse", parse_cfg("AlphaLit", 6 if q else 7))
    c.vectors("whitespace", "MCParse", parse_cfg("AlphaWs", 4 if q else 5))
    c.vectors("whitespace_in_object", "MCParse", parse_cfg("AlphaWsObj", 6 if q else 7, "InObj"))
    c.vectors("member", "MCParse", parse_cfg("AlphaObj", 4 if q else 5, "InMember"))
    r = c.rng("texts")
    c.traces_of("random", [dict(k="accept", s=t) for t in texts(r, 6000 if q else 100000)], chunk=20000)
    c.traces_of("wide", [dict(k="accept", s=t) for t in texts(r, 100 if q else 3000, 0.4, 5, 6)], chunk=1000)
    c.traces_of("large", [dict(k="accept", s=t) for t in texts(r, 250 if q else 5000, 0.5, top=400)], chunk=1000)


def chars(c, mode, stride=1):
    c.vectors("every_" + mode, "MCChars", cfg(dict(Mode=mode, Block=128, Stride=stride)))


@check("J02")
def j02(c):
    c.harness()
    q = c.quick
    c.vectors("struct", "MCParse", parse_cfg("AlphaStruct", 6 if q else 8, kind="parse"))
    c.vectors("members", "MCParse", parse_cfg("AlphaObj", 5 if q else 6, "InObj", kind="parse"))
    c.vectors("strings", "MCParse", parse_cfg("AlphaStr", 3 if q else 4, "InString", "parse"))
    c.vectors("hex", "MCParse", parse_cfg("AlphaHex", 4 if q else 5, "InString", "parse"))
    for mode in ("esc", "pair", "raw"):
        chars(c, mode)
    r = c.rng("texts")
    c.traces_of("random", [dict(k="parse", s=t) for t in texts(r, 4000 if q else 60000, 0.9)], chunk=10000)
    c.traces_of("wide", [dict(k="parse", s=t) for t in texts(r, 60 if q else 2000, 1, 5, 6)], chunk=1000)
    c.traces_of("large", [dict(k="parse", s=t) for t in texts(r, 250 if q else 5000, 1, top=400)], chunk=1000)


@check("J03")
def j03(c):
    c.harness()
    q = c.quick
    c.vectors("digits", "MCParse", parse_cfg("AlphaNum", 6 if q else 7, kind="parse"))
    r = c.rng("numbers")
    c.traces_of("literals", [dict(k="parse", s=gen.literal(r)) for _ in range(1500 if q else 30000)], tabs=True, chunk=3000)
    c.traces_of("in_array", [dict(k="parse", s=[91] + gen.literal(r) + gen.ws(r) + [44] + gen.ws(r) + gen.literal(r) + [93]) for _ in range(300 if q else 5000)],
                tabs=True, chunk=3000)
    num = lambda n: dict(t="num", n=n)
    c.traces_of("printed", [dict(k="print", v=num(gen.any_double(r))) for _ in range(2500 if q else 40000)], tabs=True, chunk=5000)
    c.traces_of("round", [dict(k="round", v=num(gen.any_double(r))) for _ in range(2500 if q else 40000)], chunk=5000)
    nf = [dict(t="nf", w=w) for w in ("nan", "inf", "ninf")]
    c.traces_of("nonfinite", [dict(k=k, v=v) for k in ("print", "round") for x in nf
                              for v in (x, dict(t="arr", a=[x, num(gen.num(r)), x]), gen.obj({(97,): [x, num(gen.num(r)), x]}))])


def values(r, n, depth=4, width=4, nonfinite=0.02, top=0):
    def lf(q):
        if q.random() < nonfinite:
            return dict(t="nf", w=q.choice(["nan", "inf", "ninf"]))
        return gen.leaf(q, True, gen.any_double)
    for _ in range(n):
        yield gen.big_doc(r, top, leaff=lf) if top else gen.doc(r, depth, width, leaff=lf)


DOC_INV = ["TypeInv", "ReadFrame", "FailFrame", "ReadAnswer", "SetGet", "SetPad", "SetFrame", "SetNew", "MutAnswer", "DelAnswer", "LocalAnswer", "LatestInv"]


def doc_cfg(family, docs, maxlen=3, rounds=1, vias=0, fail=False, emit="Emit"):
    return cfg(dict(Family=family, Docs=docs, MaxLen=maxlen, Rounds=rounds, Vias=vias, OnlyFail=fail), DOC_INV + [emit])


def histories(c, name, n, length, **kw):
    r = c.rng(name)
    c.traces_of(name, [gen.history(r, length, **kw) for _ in range(n)], module="TraceDoc", chunk=2000)
    kw.pop("depth", 0)
    c.traces_of(name + "_large", [gen.history(r, 4, top=300, **kw) for _ in range(n // 6)], module="TraceDoc", chunk=500)


@check("J04")
def j04(c):
    c.harness()
    q = c.quick
    chars(c, "print", 2 if q else 1)
    chars(c, "keys", 8 if q else 1)
    c.vectors("universe", "MCDoc", doc_cfg("read", "all", 1, 0, emit="EmitDoc"))
    r = c.rng("values")
    c.traces_of("random", [dict(k="print", v=v) for v in values(r, 2500 if q else 40000)], chunk=5000)
    c.traces_of("many_keys", [dict(k="print", v=v) for v in values(r, 40 if q else 600, 2, 25)], chunk=1000)
    c.traces_of("large", [dict(k="print", v=v) for v in values(r, 250 if q else 4000, top=300)], chunk=1000)


@check("J05")
def j05(c):
    c.harness()
    q = c.quick
    c.vectors("universe", "MCDoc", doc_cfg("read", "all", 1, 0, emit="EmitDoc"))
    chars(c, "keys", 16 if q else 1)
    r = c.rng("values")
    c.traces_of("random", [dict(k="round", v=v) for v in values(r, 5000 if q else 80000)], chunk=10000)
    c.traces_of("wide", [dict(k="round", v=v) for v in values(r, 100 if q else 2000, 5, 6)], chunk=1000)
    c.traces_of("large", [dict(k="round", v=v) for v in values(r, 400 if q else 6000, top=400)], chunk=1000)


def types_file(c):
    out = subprocess.run([c.jh, "types"], stdout=subprocess.PIPE, check=True).stdout.decode()
    p = c.path("types.ndjson")
    with open(p, "w") as f:
        f.write(out)
    os.environ["TYPES"] = p
    return [json.loads(l) for l in out.splitlines()]


@check("J06")
def j06(c):
    c.harness()
    q = c.quick
    tys = types_file(c)
    c.vectors("small_values", "MCConv", cfg(dict(Mode="nat", Big=not q), ["RoundInv", "Emit"]))
    r = c.rng("native")

    def cases(n):
        for ty in tys:
            for _ in range(n):
                x, e = gen.native(r, ty)
                yield dict(k="nat", ty=ty, x=x, exact=e)
    c.traces_of("random", cases(60 if q else 1000), chunk=6000)


@check("J07")
def j07(c):
    c.harness()
    q = c.quick
    tys = types_file(c)
    c.vectors("small_values", "MCConv", cfg(dict(Mode="conv", Big=not q), ["ConvInv", "Emit"]))
    r = c.rng("conv")

    def cases(n):
        for ty in tys:
            for _ in range(n):
                v = gen.for_type(r, ty, lambda z: gen.any_double(z) if z.random() < 0.5 else gen.num(z), 0.06, True)
                if not gen.collides(v):
                    yield dict(k="conv", ty=ty, v=v)
    c.traces_of("random", cases(80 if q else 1200), chunk=6000)
    num = [t for t in tys if t["c"] in ("int", "f32")]
    c.traces_of("numbers", [dict(k="conv", ty=t, v=gen.for_type(r, t, gen.any_double, 0, True)) for t in num for _ in range(120 if q else 2000)], chunk=6000)


@check("J08")
def j08(c):
    c.harness()
    q = c.quick
    c.vectors("reads", "MCDoc", doc_cfg("read", "mid" if q else "all", 3))
    histories(c, "random", 1500 if q else 20000, 8, weights=dict(read=10, get=6, set=1, update=1, local=2, take=1))


@check("J09")
def j09(c):
    c.harness()
    q = c.quick
    c.vectors("stores", "MCDoc", doc_cfg("write", "mid" if q else "all", 3))
    histories(c, "random", 1500 if q else 20000, 8, weights=dict(set=6, update=6, read=2, get=1, local=3))


@check("J10")
def j10(c):
    c.harness()
    q = c.quick
    c.vectors("removals", "MCDoc", doc_cfg("take", "mid" if q else "all", 3))
    histories(c, "random", 1500 if q else 20000, 8, weights=dict(take=10, set=2, update=2, read=1, local=2))


@check("J11")
def j11(c):
    c.harness()
    q = c.quick
    inv = ["MachineInv", "CutInv", "WriteReadInv", "Emit"]
    c.vectors("strings", "MCPath", cfg(dict(Mode="text", MaxLen=5 if q else 6), inv))
    c.vectors("written", "MCPath", cfg(dict(Mode="steps", MaxLen=3), inv))
    r = c.rng("paths")

    def cases(n):
        for _ in range(n):
            x = r.random()
            if x < 0.5:
                s = gen.random_path_text(r, 12)
            elif x < 0.8:
                p = gen.some_path(r, None, gen.KEYS, 5)
                if not gen.writable(p):
                    continue
                s = gen.write_path(p)
                if r.random() < 0.3:
                    s = gen.mutate(r, s)
            else:
                s = gen.text(r, 10)
            # "#-0" and "#+5" are left open; indices that are written out stay small
            t = "".join(map(chr, s))
            if re.search(r"(^|\.)#[-+]", t.replace("\\.", "\\_")) or re.search(r"[0-9]{4}", t):
                continue
            yield dict(k="path", s=s)
    c.traces_of("random", cases(5000 if q else 80000), chunk=20000)
    big = []
    for _ in range(400 if q else 5000):
        v = r.choice([2 ** 64 - 1, 2 ** 64, 2 ** 64 + r.randrange(10 ** 6), 2 ** 64 - r.randrange(1, 10 ** 6), 10 ** r.randrange(7, 30), r.randrange(10 ** r.randrange(7, 25)) + 10 ** 7])
        pre = r.choice(["", "a.", "#0.", "\\#.", "b\\..", "..", "#x."])
        post = r.choice(["", ".a", ".#0", ".", "x", "\\.", ".#", "\\"])
        big.append(dict(k="path", s=gen.cps(pre + "#" + r.choice(["", "", "0", "000"]) + str(v) + post), big=1))
    c.traces_of("large_indices", big)


@check("J12")
def j12(c):
    c.harness()
    q = c.quick
    types_file(c)
    c.vectors("histories", "MCDoc", doc_cfg("dup", "dups", 2, 1 if q else 1))
    c.vectors("from_empty", "MCDoc", doc_cfg("dup", "empty", 1, 2 if q else 3))
    c.vectors("object_macro", "MCMake", cfg(dict(What="object", MaxLen=5 if q else 6, Wide=False), ["EntriesInv", "Emit"]))
    c.vectors("texts", "MCParse", parse_cfg("AlphaObj", 5 if q else 6, "InObj", kind="parse"))
    histories(c, "random", 1500 if q else 20000, 12, weights=dict(local=10, set=2, update=2, mut=2, take=2, get=1, read=2, text=3), keys=[[97], [98], []], depth=2)
    r = c.rng("lists")
    dup = [t for t in map(json.loads, open(c.path("types.ndjson"))) if t["c"] in ("pairs", "map")]
    c.traces_of("lists_and_maps", [dict(k="conv", ty=t, v=v) for t in dup for _ in range(40 if q else 500)
                                   for v in [gen.for_type(r, t, gen.num, 0)] if not gen.collides(v)], chunk=6000)


@check("J13")
def j13(c):
    c.harness()
    q = c.quick
    c.vectors("operations", "MCDoc", doc_cfg("local", "all", 1))
    histories(c, "random", 2000 if q else 30000, 12, weights=dict(local=20, set=1, update=1, get=1))


@check("J14")
def j14(c):
    c.harness()
    q = c.quick
    c.vectors("failures", "MCDoc", doc_cfg("fail", "small" if q else "all", 2 if q else 3, 1, fail=True))
    histories(c, "random", 1500 if q else 20000, 10, weights=dict(NORMAL_FAIL))


NORMAL_FAIL = dict(read=2, get=3, set=1, update=1, take=4, mut=4, local=5, bad=5)


@check("J15")
def j15(c):
    c.harness()
    q = c.quick
    types_file(c)
    c.vectors("calls", "MCOne", cfg(dict(Mode="one", Big=False), ["OneInv", "EmitOne"], spec="SpecOne"))
    r = c.rng("calls")
    tys = [json.loads(l) for l in open(c.path("types.ndjson"))]

    def cases(n):
        for _ in range(n):
            v = gen.doc(r, 3, 3, leaff=lambda z: gen.leaf(z, True, small_num))
            t = gen.full_text(r, v)
            if r.random() < 0.1:
                t = gen.mutate(r, t)
            p = gen.some_path(r, v)
            s = gen.write_path(p) if gen.writable(p) else [97]
            if r.random() < 0.1:
                s = gen.random_path_text(r, 6)
            ty = r.choice(tys)
            if '"f32"' in json.dumps(ty):
                continue
            o = r.choice(["get", "set", "del", "decode"])
            w = dict(t="null")
            if o in ("get", "decode") and r.random() < 0.6:
                w = gen.for_type(r, ty, small_num)
                if gen.collides(w):
                    continue
                if o == "get":
                    v = gen.track_set(v, p, w)
                    t = gen.full_text(r, v)
                else:
                    t = gen.full_text(r, w)
            if gen.collides(v) or re.search(r"#[-+]", "".join(map(chr, s))) or re.search("[0-9]{4}", "".join(map(chr, s))):
                continue
            cc = dict(k="one", o=o, t=t, s=s, ty=ty)
            ns = []
            N.walk([v, w] if o in ("get", "decode") else v, ns)
            if any(x["e"] > 14 or len(x["d"]) > 15 for x in ns):
                continue
            if o == "set":
                cc["x"], e = gen.native(r, ty)
                N.walk(cc["x"], ns)
                if any(x["e"] > 14 or len(x["d"]) > 15 for x in ns):
                    continue
            yield cc
    c.traces_of("random", cases(4000 if q else 50000), chunk=10000)


@check("J16")
def j16(c):
    try:
        c.harness()
    except ToolError as e:
        # arguments the macros take no more
        m = re.search("in the macro `json::[a-z]+`|in this macro invocation", str(e))
        if not m:
            raise
        raise Violation("calls of the macros do not compile", dict(kind="compile", output=str(e)))
    q = c.quick
    c.vectors("object", "MCMake", cfg(dict(What="object", MaxLen=6 if not q else 5, Wide=False), ["EntriesInv", "Emit"]))
    c.vectors("object_wide", "MCMake", cfg(dict(What="object", MaxLen=3 if q else 4, Wide=True), ["EntriesInv", "Emit"]))
    c.vectors("array", "MCMake", cfg(dict(What="array", MaxLen=6, Wide=False), ["EntriesInv", "Emit"]))
    c.vectors("paths", "MCDoc", doc_cfg("macro", "small", 2, 1, vias=1))
    c.vectors("long_paths", "MCDoc", doc_cfg("macro", "mid", 3, 1))
    r = c.rng("mixed")
    c.traces_of("mixed", [{"k": "mixed", "in": dict(k=gen.key(r), i=r.randrange(-500, 500), s=gen.text(r), b=r.random() < 0.5, l=[r.randrange(-9, 99) for _ in range(r.randrange(4))])}
                          for _ in range(1000 if q else 10000)])
    deep = []
    for _ in range(1200 if q else 15000):
        v = gen.doc(r, 6, 3)
        ops = []
        for _ in range(6):
            p = gen.some_path(r, v, gen.KEYS, 6, 0.95)
            x = gen.doc(r, 1, 2)
            ops.append(r.choice([dict(o="find", p=p, via=r.randrange(4, 8)), dict(o="update", p=p, x=x, via=r.randrange(2, 8)), dict(o="discard", p=p, via=r.randrange(3, 6)),
                                 dict(o="find_mut", p=p, x=x, via=1)]))
        deep.append(dict(k="hist", v=v, ops=ops))
    c.traces_of("deep_paths", deep, module="TraceDoc", chunk=3000)


@check("J20")
def j20(c):
    c.harness()
    q = c.quick
    c.vectors("writes", "MCDoc", doc_cfg("mut", "mid" if q else "all", 3))
    histories(c, "random", 1500 if q else 20000, 8, weights=dict(mut=10, set=3, update=3, read=1, local=3))


def small_num(r):
    while True:
        n = gen.num(r)
        if n["e"] < 15:
            return n


# ---------------------------------------------------------------- derives
def declarations(c, universe, maxf, simulate=None):
    out = []
    r = c.tlc("MCDecl", cfg(dict(Universe=universe, MaxF=maxf), ["TypeInv", "Emit"]), tag="decl_" + universe, simulate=simulate,
              on_line=lambda l: out.append(json.loads(json.loads(l))))
    if r["violated"]:
        raise ToolError("MCDecl: " + r["trace"][:2000])
    c.states += r["distinct"]
    c.transitions += r["generated"]
    out.sort(key=lambda d: json.dumps(d, sort_keys=True))
    c.parts.append(dict(part="declarations_" + universe, direction="spec->code", states=r["distinct"], transitions=r["generated"], declarations=len(out)))
    return out


def derived(c, name, decls, modes, big, n=0):
    """the declarations compile with the derives; small values and documents exhaustively, random ones beyond"""
    c.harness()
    c.jh, tys = derive.crate(c, name, decls)
    p = c.path(name + ".types")
    with open(p, "w") as f:
        for t in tys:
            f.write(json.dumps(t) + "\n")
    os.environ["TYPES"] = p
    for mode in modes:
        c.vectors(f"{name}_{mode}", "MCDerive", cfg(dict(Mode=mode, Big=big), ["EncInv", "DecInv", "EmitD"], "SpecD"))
    r = c.rng(name)
    cases = []
    for ty in tys:
        for _ in range(n if "enc" not in ty else 0):
            if "nat" in modes:
                x, e = gen.native(r, ty)
                cases.append(dict(k="nat", ty=ty, x=x, exact=e))
            if "conv" in modes:
                v = gen.for_type(r, ty, gen.num, 0 if gen.ambiguous(ty) else r.choice([0, 0.08]))
                if not gen.collides(v):
                    cases.append(dict(k="conv", ty=ty, v=v))
    if cases:
        c.traces_of(name + "_random", cases, chunk=5000)


def deriving(c, modes):
    q = c.quick
    derived(c, "pairs", declarations(c, "pairs", 2), modes, True, 4 if q else 60)
    derived(c, "attrs", declarations(c, "attrs", 2), modes, False, 1 if q else 20)
    derived(c, "any", declarations(c, "any", 7, (60 if q else 400, 120)), modes, not q, 20 if q else 150)


@check("J17")
def j17(c):
    deriving(c, ["nat"])


@check("J18")
def j18(c):
    deriving(c, ["conv", "nat"])


@check("J19")
def j19(c):
    q = c.quick
    derived(c, "shapes", declarations(c, "shapes", 6), ["nat", "conv"], False, 2 if q else 20)
    derived(c, "any", declarations(c, "any", 6, (80 if q else 800, 120)), ["nat", "conv"], False, 4 if q else 20)


@check("J27")
def j27(c):
    q = c.quick
    out = []
    r = c.tlc("MCRefuse", cfg(dict(MaxF=3, Wide=not q), ["OnceInv", "ShapeInv", "FineInv", "Emit"]), on_line=lambda l: out.append(json.loads(json.loads(l))))
    if r["violated"]:
        raise ToolError("MCRefuse: " + r["trace"][:2000])
    c.states += r["distinct"]
    c.transitions += r["generated"]
    c.nvec += len(out)
    c.parts.append(dict(part="declarations", direction="spec->code", states=r["distinct"], transitions=r["generated"], declarations=len(out)))
    out.sort(key=lambda d: json.dumps(d, sort_keys=True))
    refuse.check(c, out)


@check("J24")
def j24(c):
    c.harness()
    q = c.quick
    types_file(c)
    c.vectors("families", "MCBig", cfg(dict(Small=8, Large=120 if q else 400, Long=600 if q else 2000), ["Lemma", "Emit"]))
    c.vectors("long_paths", "MCLong", cfg(dict(Small=8, Mid=100, Huge=100000), ["Lemma", "Emit"]))
    c.vectors("scan", "MCParse", parse_cfg("AlphaScan", 5 if q else 7))
    c.vectors("hex", "MCParse", parse_cfg("AlphaHex", 3 if q else 5, "InKey"))
    c.vectors("strings", "MCParse", parse_cfg("AlphaStr", 3 if q else 4, "InString"))
    r = c.rng("garbage")
    cases = []
    for t in texts(r, 60 if q else 1500, 1, 3, 3):
        # every truncation, and single characters replaced
        for i in range(len(t)):
            cases.append(dict(k="accept", s=t[:i]))
            if r.random() < 0.3:
                cases.append(dict(k="accept", s=t[i:]))
                cases.append(dict(k="accept", s=t[:i] + [gen.char(r)] + t[i + 1:]))
    for _ in range(2000 if q else 30000):
        cases.append(dict(k="accept", s=gen.text(r, 14)))
        cases.append(dict(k="accept", s=[r.choice(gen.STRUCT) for _ in range(r.randrange(14))]))
    # long characters around what is wrong
    for t in texts(r, 300 if q else 5000, 1, 1, 3):
        i = r.randrange(len(t) + 1)
        s = gen.long_text(r)
        cases.append(dict(k="accept", s=r.choice([t[:i] + s + t[i:], s + t, t + s, t[:i] + [34] + s, [34] + s + [34] + t, [123, 34] + s + [34] + t])))
    c.traces_of("garbage", cases, chunk=20000)
    paths = []
    for _ in range(3000 if q else 40000):
        s = gen.random_path_text(r, 14) if r.random() < 0.6 else gen.text(r, 12)
        t = "".join(map(chr, s))
        if not re.search(r"#[-+]", t) and not re.search("[0-9]{4}", t):
            paths.append(dict(k="path", s=s))
    for _ in range(200 if q else 3000):
        paths.append(dict(k="path", s=r.choice([gen.long_text(r), [35] + gen.long_text(r), gen.cps("a.#") + gen.long_text(r), gen.long_text(r) + [46] + gen.long_text(r)])))
    c.traces_of("paths", paths, chunk=20000)
    histories(c, "operations", 1000 if q else 15000, 14, weights=dict(read=4, get=2, set=2, update=2, take=4, mut=3, local=8, text=2, bad=3), numf=small_num)
    tys = [json.loads(l) for l in open(c.path("types.ndjson"))]
    conv = [dict(k="conv", ty=t, v=v) for t in tys for _ in range(30 if q else 300)
            for v in [gen.for_type(r, t, gen.any_double, 0.3, True)] if not gen.collides(v)]
    c.traces_of("conversions", conv, chunk=6000)
    # nesting on an ordinary stack
    for kind, depth in [("array", 500), ("object", 500), ("open", 2000), ("mixed", 300)]:
        if not deep(c, kind, depth):
            raise Violation(f"deep nesting: {kind} at depth {depth} does not return on a stack of 2 MB", dict(kind="deep", shape=kind, depth=depth))
        c.traces += 1
    for line in findings("J24"):
        m = re.search(r"\[deep (\w+) (\d+)\]", line)
        if m and not deep(c, m.group(1), int(m.group(2))):
            c.known_finding(line)


def deep(c, kind, depth):
    p = subprocess.run([c.jh, "deep", kind, str(depth)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
    return p.returncode == 0 and p.stdout.strip() == b"DEEP true"


FINDINGS = os.path.join(VERIF, "known_findings.txt")


def findings(pid):
    with open(FINDINGS) as f:
        return [l.strip()[len("finding: "):] for l in f if l.startswith(f"finding: property={pid} ")]


# ---------------------------------------------------------------- equality, errors
@check("J25")
def j25(c):
    c.harness()
    q = c.quick
    inv = ["SameInv", "SymmetricInv", "ExactInv", "TransInv", "InsideInv", "TextInv", "Emit"]
    c.vectors("pairs", "MCEq", cfg(dict(Wide=not q), inv))
    r = c.rng("pairs")

    def cases(n, **kw):
        for v in values(r, n, **kw):
            yield dict(k="eq", a=v, b=v if r.random() < 0.25 else gen.near(r, v))
    c.traces_of("near", cases(3000 if q else 40000), chunk=5000)
    c.traces_of("wide", cases(60 if q else 1000, depth=5, width=6), chunk=500)
    c.traces_of("large", cases(400 if q else 5000, top=300), chunk=500)


def fail_cfg(alpha, n, prefix="NoPrefix"):
    return cfg(dict(Alphabet=Ref(alpha), MaxLen=n, Prefix=Ref(prefix), Kind="fail", CheckGrammar=False), ["EmitFail"])


@check("J26")
def j26(c):
    c.harness()
    q = c.quick
    types_file(c)
    os.environ["JH_SHOW"] = "1"
    for name, alpha, n, prefix in [("struct", "AlphaStruct", 4, "NoPrefix"), ("scan", "AlphaScan", 4, "NoPrefix"), ("strings", "AlphaStr", 3, "InString"), ("hex", "AlphaHex", 3, "InString"), ("low", "AlphaHex", 3, "InHigh"),
                                   ("numbers", "AlphaNum", 4, "NoPrefix"), ("literals", "AlphaLit", 4, "NoPrefix"), ("white_space", "AlphaWs", 3, "NoPrefix"),
                                   ("members", "AlphaObj", 4, "InObj")]:
        c.vectors(name, "MCParse", fail_cfg(alpha, n if q else n + 1, prefix))
    r = c.rng("texts")
    c.traces_of("random", [dict(k="fail", s=t) for t in texts(r, 3000 if q else 40000, 0.1)], chunk=10000)
    c.traces_of("large", [dict(k="fail", s=t) for t in texts(r, 150 if q else 3000, 0.1, top=300)], chunk=1000)
    # what the errors of operations, conversions and one-shot calls are, and how they show
    c.vectors("operations", "MCDoc", doc_cfg("fail", "small", 2, 1, fail=True))
    c.vectors("conversions", "MCConv", cfg(dict(Mode="conv", Big=False), ["Emit"]))
    c.vectors("one_shot", "MCOne", cfg(dict(Mode="one", Big=False), ["OneInv", "EmitOne"], spec="SpecOne"))
    histories(c, "histories", 600 if q else 10000, 10, weights=dict(NORMAL_FAIL))


# ---------------------------------------------------------------- quote!
def quote_cfg(u, items, depth, skip=0, inv=True):
    return cfg(dict(Universe=u, MaxItems=items, MaxDepth=depth, Skip=skip), (["HomInv", "PlainInv", "ClosedInv"] if inv else []) + ["Emit", "EnvsOut"])


@check("J21")
def j21(c):
    q = c.quick
    quote.check(c, "tokens", quote_cfg("tokens", 2, 1), take=4000 if q else None)
    quote.check(c, "holes", quote_cfg("holes", 2, 1), take=6000 if q else None)
    quote.check(c, "mixed", quote_cfg("mixed", 3, 3), take=5000 if q else 40000)
    quote.check(c, "any", quote_cfg("any", 14, 4, 10, False), simulate=(150 if q else 2000, 40), take=1500 if q else 15000)
    quote.check(c, "long", quote_cfg("any", 40, 3, 36, False), simulate=(30 if q else 400, 100), take=60 if q else 600)


def scope_cfg(u, n, skip=0, inv=True):
    return cfg(dict(Universe=u, MaxCmds=n, Skip=skip), (["FirstBranchInv", "GrowInv", "OrderInv", "UndefInv"] if inv else []) + ["Emit", "EnvsOut"])


@check("J22")
def j22(c):
    q = c.quick
    quote.check(c, "conditionals", scope_cfg("cond", 5 if q else 6), take=4000 if q else 30000, module="MCScope")
    quote.check(c, "definitions", scope_cfg("defs", 3), take=5000 if q else None, module="MCScope")
    quote.check(c, "loops", scope_cfg("loop", 4 if q else 5), take=4000 if q else 30000, module="MCScope")
    quote.check(c, "calls", scope_cfg("calls", 3 if q else 4), take=3000 if q else 30000, module="MCScope")
    quote.check(c, "shadowing", scope_cfg("shadow", 6 if q else 7), take=3000 if q else 30000, module="MCScope")
    quote.check(c, "any", scope_cfg("any", 12, 6, False), simulate=(100 if q else 2000, 16), take=2500 if q else 20000, module="MCScope")
    quote.check(c, "long", scope_cfg("any", 40, 36, False), simulate=(8 if q else 100, 50), take=100 if q else 1500, module="MCScope")


# ---------------------------------------------------------------- json_parse
def item_cfg(u, n, skip=0, inv=True):
    return cfg(dict(Universe=u, MaxParts=n, Skip=skip), (["SelfInv"] if inv else []) + ["Emit"])


@check("J23")
def j23(c):
    q = c.quick
    item.check(c, "attributes", item_cfg("attrs", 2), take=6000 if q else 40000)
    item.check(c, "types", item_cfg("types", 1 if q else 2), take=None if q else 60000)
    item.check(c, "generics", item_cfg("generics", 2), take=6000 if q else 60000)
    item.check(c, "shapes", item_cfg("shapes", 3 if q else 4), take=8000 if q else 60000)
    item.check(c, "any", item_cfg("any", 12, 5, False), simulate=(300 if q else 4000, 14), take=3000 if q else 40000)
    item.check(c, "long", item_cfg("any", 40, 32, False), simulate=(20 if q else 400, 44), take=150 if q else 3000)


def part_cfg(u, n, skip=0):
    return cfg(dict(Universe=u, MaxParts=n, Skip=skip), ["PartInv", "WholeInv", "EmitParts"])


@check("J28")
def j28(c):
    q = c.quick
    item.parts(c, "types", part_cfg("types", 1), take=600 if q else 6000, same=3000 if q else 40000)
    item.parts(c, "attributes", part_cfg("attrs", 1 if q else 2), take=600 if q else 6000)
    item.parts(c, "generics", part_cfg("generics", 1 if q else 2), take=600 if q else 6000)
    item.parts(c, "shapes", part_cfg("shapes", 2 if q else 3), take=600 if q else 6000)
    item.parts(c, "any", part_cfg("any", 12, 8), simulate=(60 if q else 1500, 14), take=400 if q else 6000, same=500 if q else 6000)
    item.parts(c, "cuts", cfg(dict(Universe="any", MaxParts=3 if q else 4, Skip=0), ["EmitCuts"], spec="SpecCut"), take=6000 if q else 100000)
