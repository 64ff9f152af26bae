"""Declarations the derives must refuse, or accept: each on a line of its own, compiled together."""
import json, os, subprocess
from core import VERIF, Violation, ToolError

LIT = dict(int="3", typed="3u8", char="'c'", bytes='b"x"', rawbytes='br"x"', byte="b'x'", true="true", float="1.5", hex="0x1f", minus="-3", concat='concat!("a", "b")',
           str='"x"', raw='r"x"', hash='r#"a"b"#', none='""')
BODY = dict(
    tuple=dict(empty="()", one="({T})", two="({T}, String)", trail="({T}, String,)", pub="(pub {T})", key='(#[key = "x"] {T})', attr="(#[doc = \"x\"] pub(crate) {T}, u8)"),
    enum=dict(empty="", unit="A", units="A, B", trail="A, B,", tuple="A({T}), B", fields="A {{ x: {T} }}", mixed="A, B({T}, u8), C {{ y: String }}", disc="A = 1, B = 2", key='#[key = "x"] A, B'),
    union=dict(one="x: {U}", two="x: {U}, y: u8", key='#[key = "x"] x: {U}'))
IMPL = dict(enc="impl json::ToJson for {n} {{ fn to_json(&self) -> json::Json {{ json::Json::Null }} }}",
            dec="impl json::FromJson for {n} {{ fn from_json(_: &json::Json) -> Result<Self, json::Error> {{ panic!() }} }}")


def render(d, n):
    name = f"D{n}"
    der = dict(enc="JsonEncode", dec="JsonDecode")[d["der"]]
    bound = dict(enc="json::ToJson", dec="json::FromJson")[d["der"]]
    at, sh, body = d["at"], d["shape"], d["body"]
    g = at == "gen" and body not in ("empty", "unit", "units", "trail", "disc", "plain") and not (sh == "enum" and body == "key") and not (sh == "named" and not d["fs"])
    gen = f"<T: {bound}{' + Copy' if sh == 'union' else ''}>" if g else ""
    f = dict(T="T" if g else "i32", U="T" if g else "i32")
    head = f"{'/** a doc */ ' if at == 'doc' else ''}#[derive({der})] {'#[allow(dead_code)] ' if at == 'after' else ''}{'pub ' if at == 'vis' else ''}"
    if sh == "unit":
        return f"{head}struct {name};"
    if sh == "tuple":
        return f"{head}struct {name}{gen}{BODY[sh][body].format(**f)};"
    if sh in ("enum", "union"):
        return f"{head}{sh} {name}{gen} {{ {BODY[sh][body].format(**f)} }}"
    fs = []
    for i, x in enumerate(d["fs"]):
        a = {"plain": "", "ignored": "#[ignore] "}.get(x["k"]) if x["k"] in ("plain", "ignored") else f"#[key = {LIT[x['l']]}] "
        fs.append(f"{a}f{i}: {'T' if g and i == 0 else 'i32' if i % 2 == 0 else 'String'}")
    if g and any(x["k"] == "ignored" for x in d["fs"][:1]) and d["der"] == "dec":
        gen = f"<T: {bound} + Default>"
    return f"{head}struct {name}{gen} {{ {', '.join(fs)} }}"


def check(c, decls):
    """each declaration is refused or accepted as the specification says"""
    dir = c.path("refuse")
    os.makedirs(os.path.join(dir, "src"))
    with open(os.path.join(dir, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "refuse"\nversion = "0.1.0"\nedition = "2018"\n\n[workspace]\n\n[dependencies]\njson = { path = "/repo" }\n')
    lines = [render(x["d"], n) for n, x in enumerate(decls)]
    alive, refused = list(range(len(lines))), {}
    for rnd in range(8):
        src = ["#![allow(warnings)] use json::{JsonEncode, JsonDecode};"] + [lines[n] for n in alive]
        with open(os.path.join(dir, "src", "lib.rs"), "w") as f:
            f.write("\n".join(src) + "\n")
        p = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=dir, env=c.cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
        new, other = {}, []
        for l in p.stdout.decode().splitlines():
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
                continue
            if "refuse" not in m["package_id"]:
                raise ToolError("/repo does not build: " + m["message"]["message"])
            at = [s["line_start"] for s in m["message"]["spans"] if s["is_primary"] and s["file_name"].endswith("src/lib.rs")]
            at = [i for i in at if 2 <= i <= len(alive) + 1]
            for i in at:
                new[alive[i - 2]] = m["message"]["message"] + "".join(ch["message"] for ch in m["message"]["children"][:1])
            if not at and not m["message"]["message"].startswith("aborting"):
                other.append(m["message"]["rendered"])
        if p.returncode == 0:
            break
        if not new:
            raise ToolError("the declarations do not compile, and no line is to blame:\n" + "".join(other)[:2000] + p.stderr.decode()[-1500:])
        refused.update(new)
        alive = [n for n in alive if n not in new]
    else:
        raise ToolError("the declarations keep failing")
    bad = [n for n, x in enumerate(decls) if x["refused"] != (n in refused)]
    c.traces += len(decls)
    c.log(f"{len(decls)} declarations compiled in {rnd + 1} rounds, {len(refused)} refused, {len(bad)} differ")
    if bad:
        n = bad[0]
        what = "accepted" if decls[n]["refused"] else "refused"
        raise Violation(f"a declaration is {what}: {lines[n]}", dict(kind="declaration", declaration=lines[n], d=decls[n]["d"], message=refused.get(n, "")))
    for n in (0, len(decls) // 2, len(decls) - 1):
        c.sample(dict(declaration=lines[n], refused=n in refused))
