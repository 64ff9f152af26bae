"""Items of the specification, parsed and printed by json_parse inside the compiler."""
import json, os, shutil
import quote
from core import Violation, ToolError, REPO

LIB = r'''// Generated by lib/item.py: parses the items of a file and writes down what json_parse makes of them.
#![allow(warnings)]
extern crate proc_macro;
use json_parse::{parse, Item, StructItem, EnumItem, FnItem, utils, meta::*, name::*, field::*, generic::*, enum_value::*, param::*};
use std::str::FromStr;
type Ts = proc_macro::TokenStream;
@TAIL@
fn s(o: &mut String, x: &str) { esc(o, x) }
fn b(o: &mut String, x: bool) { o.push_str(if x { "true" } else { "false" }) }
fn list<T>(o: &mut String, xs: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut String, T)) {
    o.push('[');
    for (i, x) in xs.into_iter().enumerate() { if i > 0 { o.push(','); } f(o, x); }
    o.push(']');
}
// tokens of a text, without their spacing
fn plain(o: &mut String, ts: Ts) {
    use proc_macro::*;
    list(o, ts, |o, t| match t {
        TokenTree::Ident(x) => { o.push_str("{\"t\":\"i\",\"s\":"); esc(o, &x.to_string()); o.push('}'); }
        TokenTree::Literal(x) => { o.push_str("{\"t\":\"l\",\"s\":"); esc(o, &x.to_string()); o.push('}'); }
        TokenTree::Punct(x) => { o.push_str("{\"t\":\"p\",\"s\":"); esc(o, &x.as_char().to_string()); o.push('}'); }
        TokenTree::Group(x) => {
            let d = match x.delimiter() { Delimiter::Parenthesis => "(", Delimiter::Bracket => "[", Delimiter::Brace => "{", Delimiter::None => "" };
            o.push_str(&format!("{{\"t\":\"g\",\"d\":\"{}\",\"b\":", d)); plain(o, x.stream()); o.push('}');
        }
    })
}
fn toks(o: &mut String, x: &str) { plain(o, Ts::from_str(x).unwrap()) }
macro_rules! rec { ($o:ident, $($k:literal: $e:expr),+) => {{ let mut first = true; $o.push('{'); $( if !first { $o.push(','); } first = false; esc($o, $k); $o.push(':'); $e; )+ let _ = first; $o.push('}'); }} }

fn vis(o: &mut String, v: &Option<Option<String>>) { list(o, v, |o, v| list(o, v, |o, p| toks(o, p))) }
fn lit(o: &mut String, l: &Lit) {
    let (k, v) = match l {
        Lit::String { string, .. } => ("str", string.clone()),
        Lit::Bytes { bytes, .. } => ("bytes", String::from_utf8_lossy(bytes).into_owned()),
        Lit::Integer { integer, .. } => ("int", integer.to_string()),
        Lit::Float { float, .. } => ("float", float.to_string()),
        Lit::Boolean { boolean, .. } => ("bool", boolean.to_string()),
    };
    // the same through the accessors
    let mut acc = vec![];
    if let Some(x) = l.string() { acc.push(("str", x.to_string())) }
    if let Some(x) = l.bytes() { acc.push(("bytes", String::from_utf8_lossy(x).into_owned())) }
    if let Some(x) = l.integer() { acc.push(("int", x.to_string())) }
    if let Some(x) = l.float() { acc.push(("float", x.to_string())) }
    if let Some(x) = l.boolean() { acc.push(("bool", x.to_string())) }
    rec!(o, "lk": s(o, k), "toks": toks(o, &l.to_string()), "val": s(o, &v), "acc": list(o, acc, |o, a| rec!(o, "lk": s(o, a.0), "val": s(o, &a.1))))
}
fn same<T>(a: Option<&T>, b: Option<&T>) -> bool { match (a, b) { (Some(a), Some(b)) => std::ptr::eq(a, b), (None, None) => true, _ => false } }
// an index into a group is that index into its contents
fn nests(m: &Meta) -> bool {
    let groups = |m: &Meta| m.items.iter().filter_map(|x| x.group().map(|p| p.0.to_string())).chain(Some("no such".to_string())).collect::<Vec<_>>();
    let pairs = |m: &Meta| m.items.iter().filter_map(|x| x.pair().map(|p| p.0.to_string())).chain(Some("no such".to_string())).collect::<Vec<_>>();
    groups(m).iter().all(|g| {
        let g = g.as_str();
        match m.get((g, ())) {
            None => m.get((g, 0)).is_none() && m.get((g, "k")).is_none() && m.get((g, ("h", ()))).is_none(),
            Some(inner) => {
                let first = m.items.iter().filter_map(|x| x.group()).find(|x| x.0 == g).map(|x| x.1);
                same(first, Some(&**inner))
                && (0..inner.items.len() + 1).all(|i| same(m.get((g, i)), inner.get(i)) && same(m.get((g, &i)), inner.get(i)))
                && pairs(inner).iter().all(|k| same(m.get((g, k.as_str())), inner.get(k.as_str())))
                && groups(inner).iter().all(|h| same(m.get((g, (h.as_str(), ()))), inner.get((h.as_str(), ())))
                    && (0..3).all(|i| same(m.get((g, (h.as_str(), i))), inner.get((h.as_str(), i))))
                    && inner.get((h.as_str(), ())).map_or(true, |x| pairs(x).iter().all(|k| same(m.get((g, (h.as_str(), k.as_str()))), x.get(k.as_str())))))
            }
        }
    })
}
fn attr(o: &mut String, a: &MetaItem) {
    // what the shortcuts of an item give, against what it is
    let n = (a.ident().is_some(), a.literal().is_some(), a.pair().is_some(), a.group().is_some());
    match a {
        MetaItem::Ident(x) => { assert!(n == (true, false, false, false) && a.ident() == Some(x.as_str())); rec!(o, "k": s(o, "id"), "s": s(o, x)) }
        MetaItem::Literal(l) => { assert!(n == (false, true, false, false)); rec!(o, "k": s(o, "lit"), "lit": lit(o, a.literal().unwrap())) }
        MetaItem::Pair { key, lit: l, eq } => {
            assert!(n == (false, false, true, false) && a.pair().unwrap().0 == key);
            rec!(o, "k": s(o, "pair"), "s": s(o, key), "eq": s(o, &eq.to_string()), "lit": lit(o, a.pair().unwrap().1))
        }
        MetaItem::Group { ident, inner } => {
            assert!(n == (false, false, false, true) && a.group().unwrap().0 == ident);
            rec!(o, "k": s(o, "grp"), "s": s(o, ident), "b": meta(o, a.group().unwrap().1))
        }
    }
}
fn meta(o: &mut String, m: &Meta) {
    let pairs = |m: &Meta| m.items.iter().filter_map(|x| x.pair().map(|p| p.0.to_string())).collect::<Vec<_>>();
    let groups = m.items.iter().filter_map(|x| x.group().map(|p| p.0.to_string())).collect::<Vec<_>>();
    rec!(o, "items": list(o, &m.items, |o, a| attr(o, a)),
        "idents": list(o, m.idents(), |o, x| s(o, x)),
        "lits": list(o, m.literals(), |o, x| lit(o, x)),
        "byindex": list(o, (0..).take_while(|i| m.get(*i).is_some()), |o, i| { assert!(std::ptr::eq(m.get(i).unwrap(), m.get(&i).unwrap())); attr(o, m.get(i).unwrap()) }),
        "bykey": list(o, pairs(m), |o, k| { assert!(m.pairs().contains_key(k.as_str())); lit(o, m.get(k.as_str()).unwrap()) }),
        "inner": list(o, &groups, |o, g| {
            assert!(m.groups().contains_key(g.as_str()));
            let inner = m.get((g.as_str(), ())).unwrap();
            list(o, pairs(inner), |o, k| lit(o, m.get((g.as_str(), k.as_str())).unwrap()))
        }),
        "nests": b(o, nests(m)),
        "none": b(o, m.get("no such key").is_some() || m.get(("no such group", 0)).is_some() || m.get(m.items.len()).is_some()),
        "sizes": list(o, &[m.idents().len(), m.literals().len(), m.pairs().len(), m.groups().len()], |o, n| o.push_str(&n.to_string())))
}
fn at(o: &mut String, m: &Option<Meta>) { list(o, m, |o, m| meta(o, m)) }
fn name(o: &mut String, n: &Name) {
    rec!(o, "pre": list(o, &n.prefixes, |o, p| toks(o, p)), "id": toks(o, &n.ident), "g": list(o, &n.generics, |o, t| ty(o, t)), "islt": b(o, n.is_lifetime()))
}
fn ty(o: &mut String, t: &Type) {
    rec!(o, "id": toks(o, t.ident.as_ref().map(|x| x.as_str()).unwrap_or("")), "ref": b(o, t.is_ref), "lt": toks(o, &t.lifetime.as_ref().map(|x| x.to_string()).unwrap_or_default()),
        "mut": b(o, t.is_mut), "dyn": b(o, t.is_dyn), "imp": b(o, t.is_imp), "names": list(o, &t.names, |o, n| name(o, n)), "islt": b(o, t.is_lifetime()))
}
fn params(o: &mut String, items: &Vec<GenericItem>) { list(o, items, |o, p| gparam(o, p)) }
fn generics(o: &mut String, g: &Option<Generics>) { list(o, g, |o, g| params(o, &g.items)) }
fn args(o: &mut String, g: &Option<Generics>) { toks(o, &g.as_ref().map(|g| g.only_idents()).unwrap_or_default()) }
fn wh(o: &mut String, w: &Option<WhereClause>) { list(o, w, |o, w| params(o, &w.items)) }
fn body(o: &mut String, f: &Fields) {
    assert!(f.index_fields().is_some() == matches!(f, Fields::TupleFields(_)) && f.name_fields().is_some() == matches!(f, Fields::StructFields(_)));
    match f {
        Fields::NoFields => rec!(o, "k": s(o, "none"), "fs": o.push_str("[]")),
        Fields::TupleFields(fs) => rec!(o, "k": s(o, "tuple"), "fs": list(o, fs, |o, f| rec!(o, "n": s(o, ""), "pos": o.push_str(&f.pos.to_string()), "vis": vis(o, &f.vis), "at": at(o, &f.meta), "ty": ty(o, &f.ty)))),
        Fields::StructFields(fs) => rec!(o, "k": s(o, "named"), "fs": list(o, fs.iter().enumerate(), |o, (i, f)| rec!(o, "n": s(o, &f.ident), "pos": o.push_str(&i.to_string()), "vis": vis(o, &f.vis), "at": at(o, &f.meta), "ty": ty(o, &f.ty)))),
    }
}
fn report(o: &mut String, item: &Item) {
    assert!((item.struct_item().is_some(), item.enum_item().is_some(), item.fn_item().is_some()) == (matches!(item, Item::Struct(_)), matches!(item, Item::Enum(_)), matches!(item, Item::Fn(_))));
    match item { Item::Struct(i) => struct_report(o, i), Item::Enum(i) => enum_report(o, i), Item::Fn(i) => fn_report(o, i) }
}
fn struct_report(o: &mut String, i: &StructItem) {
    rec!(o, "k": s(o, "struct"), "id": s(o, &i.ident), "vis": vis(o, &i.vis), "at": at(o, &i.meta), "gen": generics(o, &i.generics), "args": args(o, &i.generics), "wh": wh(o, &i.where_clause),
        "body": body(o, &i.fields))
}
fn enum_report(o: &mut String, i: &EnumItem) {
    rec!(o, "k": s(o, "enum"), "id": s(o, &i.ident), "vis": vis(o, &i.vis), "at": at(o, &i.meta), "gen": generics(o, &i.generics), "args": args(o, &i.generics), "wh": wh(o, &i.where_clause),
        "vs": list(o, &i.values.items, |o, v| value(o, v)))
}
fn fn_report(o: &mut String, i: &FnItem) {
    rec!(o, "k": s(o, "fn"), "id": s(o, &i.ident), "vis": vis(o, &i.vis), "at": at(o, &i.meta), "gen": generics(o, &i.generics), "args": args(o, &i.generics), "wh": wh(o, &i.where_clause),
        "quals": list(o, [("async", i.asyncness), ("const", i.constness), ("unsafe", i.unsafety)].iter().filter(|x| x.1), |o, x| s(o, x.0)),
        "abi": list(o, &i.extern_abi, |o, x| s(o, &x.to_string())),
        "ps": list(o, &i.params.items, |o, p| param(o, p)),
        "ret": list(o, &i.return_ty, |o, t| ty(o, t)), "body": plain(o, i.body.stream()))
}

fn one(o: &mut String, src: &str) {
    let item: Item = match parse(Ts::from_str(src).unwrap()) {
        Ok(item) => item,
        Err(e) => { o.push_str("{\"ok\":false,\"err\":"); esc(o, &format!("{:?}", e)); o.push('}'); return; }
    };
    let printed = item.to_string();
    let again: Option<Item> = parse(Ts::from_str(&printed).unwrap()).ok();
    rec!(o, "ok": b(o, true), "rep": report(o, &item), "print": dump(o, Ts::from_str(&printed).unwrap()),
        "again": dump(o, again.as_ref().map(|x| Ts::from_str(&x.to_string()).unwrap()).unwrap_or_default()))
}
// a part on its own
fn alone<T: json_parse::Parse + ToString>(o: &mut String, src: &str, rep: impl Fn(&mut String, &T), used: impl Fn(&T) -> String) {
    let x: T = match parse(Ts::from_str(src).unwrap()) {
        Ok(x) => x,
        Err(e) => { o.push_str("{\"ok\":false,\"err\":"); esc(o, &format!("{:?}", e)); o.push('}'); return; }
    };
    let printed = x.to_string();
    let again: Option<T> = parse(Ts::from_str(&printed).unwrap()).ok();
    rec!(o, "ok": b(o, true), "rep": rep(o, &x), "print": dump(o, Ts::from_str(&printed).unwrap()), "used": dump(o, Ts::from_str(&used(&x)).unwrap()),
        "again": dump(o, again.as_ref().map(|x| Ts::from_str(&x.to_string()).unwrap()).unwrap_or_default()))
}
fn equal<T: json_parse::Parse + PartialEq>(o: &mut String, x: &str, y: &str) {
    let (x, y): (json_parse::Result<T>, json_parse::Result<T>) = (parse(Ts::from_str(x).unwrap()), parse(Ts::from_str(y).unwrap()));
    match (x, y) {
        (Ok(x), Ok(y)) => { assert!((x == y) == (y == x) && (x != y) != (x == y) && x == x); rec!(o, "ok": b(o, true), "rep": b(o, x == y)) }
        _ => o.push_str("{\"ok\":false,\"err\":\"\"}"),
    }
}
fn value(o: &mut String, v: &EnumValueItem) { rec!(o, "id": s(o, &v.ident), "at": at(o, &v.meta), "body": body(o, &v.fields), "disc": list(o, v.disc, |o, d| o.push_str(&d.to_string()))) }
fn param(o: &mut String, p: &ParamItem) { rec!(o, "n": toks(o, p.ident.as_ref().map(|x| x.as_str()).unwrap_or("")), "ty": ty(o, &p.ty)) }
fn gparam(o: &mut String, p: &GenericItem) {
    rec!(o, "n": toks(o, &p.ident), "traits": list(o, &p.traits, |o, x| name(o, x)), "lts": list(o, &p.lifetimes, |o, x| name(o, x)),
        "sized": b(o, p.sized), "d": list(o, &p.default, |o, x| ty(o, x)), "islt": b(o, p.is_lifetime()), "isst": b(o, p.is_static()))
}
fn no<T>(_: &T) -> String { String::new() }
fn part(o: &mut String, line: &str) {
    let f: Vec<&str> = line.split('\t').collect();
    match f[0] {
        "attr" => alone::<MetaItem>(o, f[1], |o, x| attr(o, x), no),
        "lit" => alone::<Lit>(o, f[1], |o, x| lit(o, x), no),
        "meta" => alone::<Meta>(o, f[1], |o, x| meta(o, x), no),
        "nested" => alone::<NestedMeta>(o, f[1], |o, x| meta(o, x), no),
        "generics" => alone::<Generics>(o, f[1], |o, x| rec!(o, "ps": params(o, &x.items), "args": toks(o, &x.only_idents())), no),
        "where" => alone::<WhereClause>(o, f[1], |o, x| rec!(o, "ps": params(o, &x.items), "args": toks(o, &x.only_idents())), no),
        "gparam" => alone::<GenericItem>(o, f[1], |o, x| gparam(o, x), no),
        "type" => alone::<Type>(o, f[1], |o, x| ty(o, x), |x| x.used_ty()),
        "name" => alone::<Name>(o, f[1], |o, x| name(o, x), no),
        "fields" => alone::<Fields>(o, f[1], |o, x| body(o, x), no),
        "tfield" => alone::<TupleFieldItem>(o, f[1], |o, x| rec!(o, "n": s(o, ""), "pos": o.push_str(&x.pos.to_string()), "vis": vis(o, &x.vis), "at": at(o, &x.meta), "ty": ty(o, &x.ty)), no),
        "sfield" => alone::<StructFieldItem>(o, f[1], |o, x| rec!(o, "n": s(o, &x.ident), "pos": o.push_str("0"), "vis": vis(o, &x.vis), "at": at(o, &x.meta), "ty": ty(o, &x.ty)), no),
        "values" => alone::<EnumValues>(o, f[1], |o, x| list(o, &x.items, |o, v| value(o, v)), no),
        "value" => alone::<EnumValueItem>(o, f[1], |o, x| value(o, x), no),
        "params" => alone::<Params>(o, f[1], |o, x| list(o, &x.items, |o, p| param(o, p)), no),
        "param" => alone::<ParamItem>(o, f[1], |o, x| param(o, x), no),
        "struct" => alone::<StructItem>(o, f[1], |o, x| struct_report(o, x), no),
        "enum" => alone::<EnumItem>(o, f[1], |o, x| enum_report(o, x), no),
        "fn" => alone::<FnItem>(o, f[1], |o, x| fn_report(o, x), no),
        "same type" => equal::<Type>(o, f[1], f[2]),
        "same name" => equal::<Name>(o, f[1], f[2]),
        "cut" => {
            let pieces = utils::split_tokens_by(Ts::from_str(f[1]).unwrap(), f[2]);
            rec!(o, "ok": b(o, true), "rep": list(o, pieces, |o, x| plain(o, x)))
        }
        x => panic!("{}", x),
    }
}
#[proc_macro]
pub fn run(_: Ts) -> Ts {
    let mut out = String::new();
    std::panic::set_hook(Box::new(|_| {}));
    for src in std::fs::read_to_string("@IN@").unwrap().lines() {
        let mut o = String::new();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| @ONE@(&mut o, src))) {
            Ok(()) => out.push_str(&o),
            Err(_) => out.push_str("{\"ok\":false,\"err\":\"panic\"}"),
        }
        out.push('\n');
    }
    let _ = std::panic::take_hook();
    std::fs::write("@OUT@", out).unwrap();
    Ts::new()
}
'''


def observe(c, name, srcs, one="one"):
    dir = c.path(name)
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    inp, out = os.path.join(dir, "items"), os.path.join(dir, "seen")
    with open(inp, "w") as f:
        f.write("".join(s + "\n" for s in srcs))
    lib = LIB.replace("@TAIL@", quote.TAIL).replace("@IN@", inp).replace("@OUT@", out).replace("@ONE@", one)
    quote.crate(os.path.join(dir, "p0"), "p0", f'json_parse = {{ path = "{REPO}/json_derive/parse" }}\n', lib, proc_macro=True)
    quote.crate(dir, "pmain", 'p0 = { path = "p0" }\n', "p0::run! {}\nfn main() {}\n", main=True)
    with open(os.path.join(dir, "Cargo.toml"), "a") as f:
        f.write('[workspace]\nmembers = ["."]\n' + quote.PROFILE)
    ok, log = c.cargo(dir, timeout=400)
    if not ok or not os.path.exists(out):
        errs = [l for l in log.splitlines() if l.startswith("error") or l.strip().startswith("-->") or "panicked" in l]
        raise Violation(f"{name}: parsing the items ends in an error", dict(kind="compile", errors=errs[:20], output=log[-3000:]))
    lines = open(out, encoding="utf-8").read().splitlines()
    if len(lines) != len(srcs):
        raise ToolError(f"{name}: {len(lines)} reports for {len(srcs)} items")
    shutil.rmtree(dir)
    return [json.loads(l) for l in lines]


def check(c, name, cfg_text, simulate=None, take=None):
    got = []
    r = c.tlc("MCItem", cfg_text, on_line=lambda l: got.append(json.loads(json.loads(l))), timeout=800, tag=name, simulate=simulate)
    if r["violated"]:
        raise ToolError(f"the specification itself fails {r['violated']} in {name}:\n{r['trace'][:3000]}")
    uniq = list({json.dumps(t): t for t in got}.values())
    n = len(uniq)
    if take and n > take:
        # the shortest ones (every part is in one of them), the others at random
        uniq.sort(key=lambda x: len(x["toks"]))
        uniq = uniq[:take // 3] + c.rng(name).sample(uniq[take // 3:], take - take // 3)
    c.states += r["distinct"]
    c.transitions += r["generated"]
    c.parts.append(dict(part=name, direction="spec->code", states=r["distinct"], transitions=r["generated"], items=len(uniq), secs=round(r["secs"], 1)))
    for x in uniq:
        x["src"] = quote.text(x["toks"])
    c.log(f"{name}: {r['distinct']} states, {n} items, {len(uniq)} of them parsed and printed")
    obs = observe(c, name, [x["src"] for x in uniq])
    for x, o in zip(uniq, obs):
        x["obs"] = o
        del x["toks"]
    c.nvec += len(uniq)
    c.validate(name, "TraceItem", uniq, chunk=20000)


def parts(c, name, cfg_text, simulate=None, take=None, same=0):
    """The parts of the items of a universe, on their own."""
    uniq = {}

    def line(l):
        for x in json.loads(json.loads(l))["parts"]:
            uniq.setdefault((x["p"]["k"], json.dumps(x["toks"])), x)
    r = c.tlc("MCPart", cfg_text, on_line=line, timeout=800, tag=name, simulate=simulate)
    if r["violated"]:
        raise ToolError(f"the specification itself fails {r['violated']} in {name}:\n{r['trace'][:3000]}")
    rnd = c.rng(name)
    kinds = {}
    for x in uniq.values():
        kinds.setdefault(x["p"]["k"], []).append(x)
    got = []
    for k, xs in sorted(kinds.items()):
        # of each kind as many
        got += xs if not take or len(xs) <= take else rnd.sample(xs, take)
    for x in got:
        x["line"] = x["p"]["k"] + "\t" + quote.text(x["toks"]) + ("\t" + "".join(x["p"]["sep"]) if x["p"]["k"] == "cut" else "")
    for k in ("type", "name"):
        pool = kinds.get(k, [])
        for _ in range(same if pool else 0):
            a = rnd.choice(pool)
            b = a if rnd.random() < 0.2 else rnd.choice(pool)
            got.append(dict(p=dict(k="same", a=a["p"], b=b["p"]), toks=a["toks"], line=f"same {k}\t" + quote.text(a["toks"]) + "\t" + quote.text(b["toks"])))
    c.states += r["distinct"]
    c.transitions += r["generated"]
    c.parts.append(dict(part=name, direction="spec->code", states=r["distinct"], transitions=r["generated"], items=len(uniq), secs=round(r["secs"], 1)))
    c.log(f"{name}: {r['distinct']} states, {len(uniq)} parts, {len(got)} cases: " + ", ".join(f"{k} {len(v)}" for k, v in sorted(kinds.items())))
    obs = observe(c, name, [x["line"] for x in got], "part")
    for x, o in zip(got, obs):
        x["obs"] = o
        del x["toks"]
    c.nvec += len(got)
    c.validate(name, "TracePart", got, chunk=20000)
