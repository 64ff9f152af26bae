"""Renders declarations of the specification as Rust, and builds a crate that registers them."""
import json, os, subprocess
from core import VERIF, BUILD, Violation, ToolError


def txt(cps):
    return "".join(map(chr, cps))


def ident(nm, raw):
    return ("r#" if raw else "") + txt(nm)


def rs(e, path=False):
    """a type in Rust"""
    c = e["c"]
    std = (lambda m: f"std::{m}::") if path else (lambda m: "")
    if c == "str":
        return std("string") + "String"
    if c == "bool":
        return "bool"
    if c in ("f64", "f32"):
        return c
    if c == "int":
        return e["r"]
    if c == "json":
        return "json::Json"
    if c == "opq":
        return "crate::Opaque"
    if c == "opt":
        return f"{std('option')}Option<{rs(e['e'], path)}>"
    if c == "vec":
        return f"{std('vec')}Vec<{rs(e['e'], path)}>"
    k = dict(str="String").get(e.get("k"), e.get("k"))
    if c == "pairs":
        return f"{std('vec')}Vec<({k}, {rs(e['e'], path)})>"
    if c == "map":
        return ("std::collections::" if path else "") + f"HashMap<{k}, {rs(e['e'], path)}>"
    if c == "struct":
        if e["id"] == "W":
            return f"crate::W<{rs(e['fs'][0]['e'], path)}>"
        return f"crate::{e['id']}"
    raise ToolError("type " + str(e))


ATTR = {
    "ignore": "#[ignore] ",
    "doc": "/// a field\n",
    "doctricky": "/// it's #[key = \"zz\"], \"quoted\" { ( = \\ #[ignore]\n",
    "block": "/** a block, with ] and\n lines */ ",
    "docattr": "#[doc = \"a doc\"] ",
    "allow": "#[allow(dead_code)] ",
    "allow2": "#[allow(dead_code, unused_variables)] ",
    "cfg": "#[cfg(all())] ",
    "hidden": "#[doc(hidden)] ",
    "depr": "#[deprecated(note = \"old\", since = \"1.0\")] ",
    "depr1": "#[deprecated] ",
    "repr": "#[repr(C)] ",
    "must_use": "#[must_use] ",
    "nonex": "#[non_exhaustive] ",
}
DER = {
    "both": "#[derive(JsonEncode, JsonDecode)] ",
    "split": "#[derive(JsonEncode)]\n#[derive(JsonDecode)] ",
    "rev": "#[derive(JsonDecode, JsonEncode)] ",
    "more": "#[derive(Debug, Clone, JsonEncode, JsonDecode, PartialEq)] ",
    "path": "#[derive(json::JsonEncode, json::JsonDecode)] ",
}
B = "ToJson + FromJson"
# generics: parameters, where clause
GEN = {
    "none": ("", ""), "inline": (f"<T: {B}>", ""), "where": ("<T>", f"where T: {B}"), "wheretrail": ("<T>", f"where T: {B},"),
    "plus": ("<T: json::ToJson + json::FromJson + Clone>", ""), "static": (f"<T: {B} + 'static>", ""), "bothwhere1": ("<T: ToJson>", "where T: FromJson"),
    "two": (f"<T: {B}, U: {B}>", ""), "twotrail": (f"<T: {B}, U: {B},>", ""), "twowhere": ("<T, U>", f"where T: {B}, U: {B}"),
    "mixed": (f"<T: {B}, U>", f"where U: {B}, T: Clone"),
    "args": (f"<T: {B} + PartialEq<T> + PartialOrd<T>>", ""), "wpath": ("<T: json::ToJson>", "where T: json::FromJson + PartialEq<T>"),
    "const": ("<const N: usize>", ""), "constT": (f"<T: {B}, const N: usize>", ""), "constT2": ("<T, const N: usize>", f"where T: {B}"),
    "us": ("<T: ?Sized + ToJson>", ""), "uslast": ("<T: ToJson + ?Sized>", ""), "uswhere": ("<T: ?Sized>", "where T: ToJson"), "usonly": ("<T>", "where T: ToJson + ?Sized"),
    "usmid": ("<T: 'static + ?Sized + ToJson>", ""), "us2": (f"<T: ?Sized + ToJson + PartialEq<T>, U: {B}>", ""),
    "lt": ("<'a>", ""), "ltT": ("<'a, T: ToJson + 'a>", ""), "lt2": ("<'a, 'b: 'a>", ""),
}


def attrs(at):
    return "".join(f"#[key = {txt(a['s'])}] " if a["a"] == "key" else ATTR[a["a"]] for a in at)


def encode_only(d):
    return d["gen"][:2] in ("lt", "us")


def struct_type(d, i):
    t = dict(c="struct", id=i, fs=d["fs"])
    if encode_only(d):
        t["enc"] = True
    return t


def render(d, n, i):
    """a module with the struct, its projection and its registration"""
    ty = struct_type(d, i)
    name = ident(d["sname"], d["sraw"])
    params, args, fields, reads, writes, owned = ["T", "U"], [], [], [], [], []
    for j, f in enumerate(d["fs"]):
        sp, e = f["sp"], f["e"]
        full, src, val = rs(e), None, None
        src = full
        if sp == "path":
            src = rs(e, True)
        elif sp == "paren":
            src = f"({full})"
        elif sp == "param":
            args.append(full)
            src = params[len(args) - 1]
        elif sp == "vecparam":
            args.append(rs(e["e"]))
            src = f"Vec<{params[len(args) - 1]}>"
        elif sp == "byparam":
            args.append("str")
            src, val = f"crate::By<{params[len(args) - 1]}>", f"crate::By(o{j}.into_boxed_str())"
        elif sp == "constparam":
            args.append("3")
            full, src = "crate::OpaqueN<3>", "crate::OpaqueN<N>"
        elif sp == "ref":
            src, val = f"&'a {full}", f"&o{j}"
        elif sp == "refstr":
            src, val = "&'a str", f"&o{j}[..]"
        elif sp == "refstr2":
            src, val = "&'b str", f"&o{j}[..]"
        elif sp == "optref":
            src, val = "Option<&'a str>", f"o{j}.as_ref().map(|x| &x[..])"
        elif sp == "vecref":
            src, val = "Vec<&'a str>", f"o{j}.iter().map(|x| &x[..]).collect()"
        elif sp == "refslice":
            el = rs(e["e"]) if e["c"] == "vec" else full[4:-1]
            src, val = f"&'a [{el}]", f"&o{j}[..]"
        fields.append(f"        {attrs(f['at'])}{f['vis']} {ident(f['nm'], f['raw'])}: {src}")
        reads.append(f"self.{ident(f['nm'], f['raw'])}.to_m()")
        owned.append(f"let o{j} = <{full}>::from_m(&f[{j}]);")
        writes.append(f"{ident(f['nm'], f['raw'])}: {val or 'o' + str(j)}")
    gen, where = GEN[d["gen"]]
    if d["gen"] in ("plus", "mixed"):
        pass
    before = "".join(ATTR[a] for a in d["sat"] if not a.startswith("after_"))
    after = "".join(ATTR[a[6:]] for a in d["sat"] if a.startswith("after_"))
    der = "#[derive(JsonEncode)] " if encode_only(d) else DER[d["der"]]
    tr = "," if d["tr"] and fields else ""
    body = ",\n".join(fields) + tr
    decl = f"    {before}{der}{after}\n    {d['svis']} struct {name}{gen} {where} {{\n{body}\n    }}\n"
    tyjson = json.dumps(ty, separators=(",", ":"))
    t = "####"
    full = name + (f"<{', '.join(args)}>" if args else "")
    out = f"pub mod m{n} {{\n    use crate::*;\n{decl}"
    out += f"    fn the_ty() -> M {{ M::read(r{t}\"{tyjson}\"{t}) }}\n"
    lets = " ".join(owned)
    if encode_only(d):
        out += f"    fn enc(m: &M) -> M {{ let f = m.get(\"f\").arr(); {lets} enc_of(&{name} {{ {', '.join(writes)} }}) }}\n"
        out += "    pub fn reg() -> (String, Entry) { (the_ty().write(), Entry { ty: the_ty(), nat: enc, conv: no_conv, one_get: no_get, one_set: no_set, decode: no_decode }) }\n"
    else:
        out += f"    impl Nat for {full} {{\n        fn ty() -> M {{ the_ty() }}\n"
        out += f"        fn to_m(&self) -> M {{ struct_m(vec![{', '.join(reads)}]) }}\n"
        out += f"        fn from_m(m: &M) -> Self {{ let f = m.get(\"f\").arr(); {lets} {name} {{ {', '.join(writes)} }} }}\n    }}\n"
        out += f"    pub fn reg() -> (String, Entry) {{ entry::<{full}>() }}\n"
    return out + "}\n", ty


SUPPORT = """// Generated by lib/derive.py from declarations of the specification.
#![allow(warnings)]
pub use jhl::mj::{o, s, t, M};
pub use jhl::types::*;
pub use json::{FromJson, Json, JsonDecode, JsonEncode, ToJson};
pub use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub struct Opaque(i64);
impl Default for Opaque { fn default() -> Opaque { Opaque(7) } }
impl Opaque {
    pub fn to_m(&self) -> M { o(vec![("n", s("opq")), ("v", M::N(self.0))]) }
    pub fn from_m(m: &M) -> Opaque { Opaque(m.get("v").int()) }
}
#[derive(Debug, Clone, PartialEq)]
pub struct OpaqueN<const N: usize>(i64);
impl<const N: usize> Default for OpaqueN<N> { fn default() -> Self { OpaqueN(7) } }
impl<const N: usize> OpaqueN<N> {
    pub fn to_m(&self) -> M { o(vec![("n", s("opq")), ("v", M::N(self.0))]) }
    pub fn from_m(m: &M) -> Self { OpaqueN(m.get("v").int()) }
}
pub struct By<T: ?Sized>(pub Box<T>);
impl<T: ?Sized + ToJson> ToJson for By<T> { fn to_json(&self) -> Json { self.0.to_json() } }
pub fn struct_m(f: Vec<M>) -> M { o(vec![("n", s("struct")), ("f", M::A(f))]) }

#[derive(Debug, Clone, PartialEq, JsonEncode, JsonDecode)]
pub struct P1 { n: i32, #[key = "k"] s: Option<String> }
#[derive(Debug, Clone, PartialEq, JsonEncode, JsonDecode)]
pub struct P2 { p: Vec<P1>, #[ignore] q: Opaque, b: bool }
#[derive(Debug, Clone, PartialEq, JsonEncode, JsonDecode)]
pub struct P3 {}
#[derive(Debug, Clone, PartialEq, JsonEncode, JsonDecode)]
pub struct W<T: ToJson + FromJson> { w: T }
impl Nat for P1 {
    fn ty() -> M { panic!() }
    fn to_m(&self) -> M { struct_m(vec![self.n.to_m(), self.s.to_m()]) }
    fn from_m(m: &M) -> P1 { let f = m.get("f").arr(); P1 { n: i32::from_m(&f[0]), s: Nat::from_m(&f[1]) } }
}
impl Nat for P2 {
    fn ty() -> M { panic!() }
    fn to_m(&self) -> M { struct_m(vec![self.p.to_m(), self.q.to_m(), self.b.to_m()]) }
    fn from_m(m: &M) -> P2 { let f = m.get("f").arr(); P2 { p: Nat::from_m(&f[0]), q: Opaque::from_m(&f[1]), b: bool::from_m(&f[2]) } }
}
impl Nat for P3 {
    fn ty() -> M { panic!() }
    fn to_m(&self) -> M { struct_m(vec![]) }
    fn from_m(_: &M) -> P3 { P3 {} }
}
impl<T: Nat> Nat for W<T> {
    fn ty() -> M { panic!() }
    fn to_m(&self) -> M { struct_m(vec![self.w.to_m()]) }
    fn from_m(m: &M) -> W<T> { W { w: T::from_m(&m.get("f").arr()[0]) } }
}

"""


def crate(c, name, decls):
    """builds the crate with all declarations; returns the executable and the types"""
    dir = c.path(name)
    os.makedirs(os.path.join(dir, "src"))
    parts = max(1, min(8, len(decls) // 12))
    types = []
    mods, regs = [], []
    for n, d in enumerate(decls):
        code, ty = render(d, n, f"S{n}")
        mods.append(code)
        types.append(ty)
        regs.append(f"m{n}::reg()")
    # the declarations are spread over crates that build in parallel
    deps = []
    core_dep = f'json = {{ path = "/repo" }}\njhl = {{ package = "jh", path = "{VERIF}/harness/core" }}\n'
    profile = "[profile.dev]\nopt-level = 0\ndebug = false\noverflow-checks = true\ndebug-assertions = true\nincremental = false\ncodegen-units = 4\n[profile.dev.package.\"*\"]\nopt-level = 1\n"
    for p in range(parts):
        pd = os.path.join(dir, f"p{p}")
        os.makedirs(os.path.join(pd, "src"))
        with open(os.path.join(pd, "Cargo.toml"), "w") as f:
            f.write(f'[package]\nname = "p{p}"\nversion = "0.1.0"\nedition = "2018"\n\n[dependencies]\n{core_dep}')
        with open(os.path.join(pd, "src", "lib.rs"), "w") as f:
            f.write(SUPPORT + "".join(mods[p::parts]) + "pub fn reg() -> Vec<(String, Entry)> { vec![" + ", ".join(regs[p::parts]) + "] }\n")
        deps.append(f'p{p} = {{ path = "p{p}" }}\n')
    with open(os.path.join(dir, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\nmembers = ["."]\n\n[dependencies]\n{core_dep}{"".join(deps)}\n{profile}')
    with open(os.path.join(dir, "src", "main.rs"), "w") as f:
        f.write("fn reg() -> std::collections::HashMap<String, jhl::types::Entry> {\n    let mut v = vec![];\n"
                + "".join(f"    v.extend(p{p}::reg());\n" for p in range(parts)) + "    v.into_iter().collect()\n}\nfn main() { jhl::main_with(reg); }\n")
    ok, out = c.cargo(dir, timeout=400)
    if not ok:
        errs = [l for l in out.splitlines() if l.startswith("error") or "help: message" in l or l.strip().startswith("-->")]
        raise Violation(f"the declarations of {name} do not compile with the derives", dict(kind="compile", errors=errs[:20], output=out[-3000:]))
    c.log(f"{name}: {len(decls)} declarations compiled")
    return os.path.join(BUILD, "target", "debug", name), types
