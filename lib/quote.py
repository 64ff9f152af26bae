"""Renders templates and scopes of the specification as Rust, and runs them through quote! inside the compiler."""
import json, os, shutil
from core import Violation, ToolError, BUILD, REPO

CLOSE = {"(": ")", "[": "]", "{": "}"}


def text(ts):
    """tokens or template items, as Rust"""
    return " ".join(item(i) for i in ts)


TELL = False  # whether expressions tell that they are evaluated


def expr(e):
    return f"ev({json.dumps(e)}, {e})" if TELL else e


def cond(c):
    return f"# {c['n']}" if c["w"] == "v" else f"#({expr(c['e'])})"


def item(i):
    t = i["t"]
    if t in ("i", "l"):
        return i["s"]
    if t == "p":
        return "".join(i["cs"])
    if t == "f":
        return "'" + i["s"]
    if t == "g":
        return f"{i['d']} {text(i['b'])} {CLOSE[i['d']]}"
    if t == "hash":
        return "##"
    if t == "var" or t == "ref":
        return "#" + i["n"]
    if t == "expr":
        return f"#({expr(i['e'])})"
    if t == "bool":
        return f"#({cond(i['c'])}: {text(i['b'])}){'-' if i['neg'] else '+'}"
    if t == "opt":
        return f"#({cond(i['c'])})?"
    if t == "optb":
        return f"#({cond(i['c'])}:{i['x']} {text(i['b'])})?"
    if t == "rep":
        return f"#({cond(i['c'])} {text(i['sep'])})*" if i["at"] == "in" else f"#({cond(i['c'])}) {text(i['sep'])} *"
    if t == "repb":
        return f"#({cond(i['c'])}:{i['x']} {text(i['b'])}) {text(i['sep'])} *"
    if t == "lit":
        return f"#(@literal: {text(i['b'])})"
    if t == "params":
        return f"#(@params({', '.join(q['n'] + (' = ' + expr(q['e']) if 'e' in q else '') for q in i['ps'])}): {text(i['b'])})"
    if t == "href":
        return "##" + i["n"]
    if t == "scope":
        return f"#(@scope: {commands(i['cs'])})"
    if t in ("call", "hcall"):
        return ("#" if t == "hcall" else "") + f"#({i['n']}({', '.join(text(a) for a in i['a'])}))"
    raise ToolError("item " + str(i))


def command(c):
    k = c["c"]
    if k == "block":
        return "{ " + text(c["b"]) + " }"
    if k == "define":
        return f"#define({c['n']}, {text(c['b'])})" if c["b"] else f"#define({c['n']})"
    if k == "macro":
        return f"#define({c['n']}({', '.join(c['a'])}), {text(c['b'])})"
    if k == "include":
        return f"#include({c['e'] if c['e'] == 'k' else expr(c['e'])})"
    if k == "quote":
        return f"#quote({text(c['b'])})"
    if k == "execute":
        return "#execute(n += 1)"
    if k == "undef":
        return f"#undef({c['n']})"
    if k == "ifdef":
        return f"#{'ifndef' if c['neg'] else 'ifdef'}({c['n']})"
    if k in ("if", "elif"):
        return f"#{k}({c['e']['n'] if c['e']['w'] == 'v' else expr(c['e']['e'])})"
    if k == "foreach":
        e = c["e"]["n"] if c["e"]["w"] == "v" else expr(c["e"]["e"])
        return f"#foreach({e})" if c["x"] == "_" else f"#foreach({e}, {c['x']})"
    return "#" + k


def commands(cs):
    return " ".join(command(c) for c in cs)


def rstr(s):
    return json.dumps(s)


def env_code(e):
    ls = lambda l: "vec![" + ", ".join(f"{rstr(text(x))}.to_string()" for x in l) + "]"
    op = lambda o: f"Some({rstr(text(o[0]))})" if o else "None"
    return (f"Env {{ v: {rstr(text(e['v']))}.to_string(), s: {rstr(text(e['s']))}, k: {rstr(text(e['k']))}, n: {e['n']}, b: {str(e['b']).lower()}, c: {str(e['c']).lower()}, "
            f"o: {op(e['o'])}, p: {op(e['p'])}, l: {ls(e['l'])}, m: {ls(e['m'])}, ll: vec![{', '.join(ls(x) for x in e['ll'])}] }}")


HEAD = '''// Generated by lib/quote.py from templates of the specification.
#![recursion_limit = "4096"]
#![allow(warnings)]
extern crate proc_macro;
use json_quote::quote;
struct Env { v: String, s: &'static str, k: &'static str, n: i32, b: bool, c: bool, o: Option<&'static str>, p: Option<&'static str>, l: Vec<String>, m: Vec<String>, ll: Vec<Vec<String>> }
thread_local! { static SAID: std::cell::RefCell<Vec<&'static str>> = std::cell::RefCell::new(Vec::new()); }
fn ev<T>(s: &'static str, x: T) -> T { SAID.with(|l| l.borrow_mut().push(s)); x }
'''
LETS = "let (v, s, k, b, c, o, p, l, m, ll) = (e.v.clone(), e.s, e.k.parse::<proc_macro::TokenStream>().unwrap(), e.b, e.c, e.o, e.p, &e.l, &e.m, &e.ll); let mut n = e.n;"

TAIL = r'''
fn esc(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c { '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"), c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)), c => out.push(c) }
    }
    out.push('"');
}
fn dump(out: &mut String, ts: proc_macro::TokenStream) {
    use proc_macro::*;
    out.push('[');
    for (i, t) in ts.into_iter().enumerate() {
        if i > 0 { out.push(','); }
        match t {
            TokenTree::Ident(x) => { out.push_str("{\"t\":\"i\",\"s\":"); esc(out, &x.to_string()); out.push('}'); }
            TokenTree::Literal(x) => { out.push_str("{\"t\":\"l\",\"s\":"); esc(out, &x.to_string()); out.push('}'); }
            TokenTree::Punct(x) => { out.push_str("{\"t\":\"p\",\"s\":"); esc(out, &x.as_char().to_string()); out.push_str(if x.spacing() == Spacing::Joint { ",\"j\":true}" } else { ",\"j\":false}" }); }
            TokenTree::Group(x) => {
                let d = match x.delimiter() { Delimiter::Parenthesis => "(", Delimiter::Bracket => "[", Delimiter::Brace => "{", Delimiter::None => "" };
                out.push_str(&format!("{{\"t\":\"g\",\"d\":\"{}\",\"b\":", d)); dump(out, x.stream()); out.push('}');
            }
        }
    }
    out.push(']');
}
'''
RUN = r'''
#[proc_macro]
pub fn run(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let envs = envs();
    let mut out = String::new();
    std::panic::set_hook(Box::new(|_| {}));
    for t in tests() {
        out.push('[');
        for (i, e) in envs.iter().enumerate() {
            if i > 0 { out.push(','); }
            SAID.with(|l| l.borrow_mut().clear());
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t(e))) {
                Ok(ts) => {
                    out.push_str("{\"ok\":true,\"ts\":"); dump(&mut out, ts); out.push_str(",\"ev\":[");
                    SAID.with(|l| for (i, s) in l.borrow().iter().enumerate() { if i > 0 { out.push(','); } esc(&mut out, s); });
                    out.push_str("]}");
                }
                Err(_) => out.push_str("{\"ok\":false,\"ts\":[],\"ev\":[]}"),
            }
        }
        out.push_str("]\n");
    }
    let _ = std::panic::take_hook();
    std::fs::write("@OUT@", out).unwrap();
    proc_macro::TokenStream::new()
}
'''


def crate(dir, name, deps, lib, proc_macro=False, main=False):
    os.makedirs(os.path.join(dir, "src"), exist_ok=True)
    with open(os.path.join(dir, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2018"\n')
        if proc_macro:
            f.write("[lib]\nproc-macro = true\n")
        f.write("[dependencies]\n" + deps)
    with open(os.path.join(dir, "src", "main.rs" if main else "lib.rs"), "w") as f:
        f.write(lib)


PROFILE = "[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n[profile.dev.build-override]\nopt-level = 0\ncodegen-units = 16\n"


def observe(c, name, codes, envs):
    """codes: Rust expressions for a TokenStream over the variables; returns for each the outcome in every environment"""
    dir = c.path(name)
    shutil.rmtree(dir, ignore_errors=True)
    parts = max(1, min(8, len(codes) // 20))
    outs, members, uses, deps = [], [], [], ""
    for p in range(parts):
        out = os.path.join(dir, f"obs{p}")
        outs.append(out)
        fns = "".join(f"fn t{j}(e: &Env) -> proc_macro::TokenStream {{ {LETS} {code} }}\n" for j, code in enumerate(codes[p::parts]))
        body = HEAD + fns + "fn tests() -> Vec<fn(&Env) -> proc_macro::TokenStream> { vec![" + ", ".join(f"t{j}" for j in range(len(codes[p::parts]))) + "] }\n"
        body += "fn envs() -> Vec<Env> { vec![" + ",\n".join(env_code(e) for e in envs) + "] }\n" + TAIL + RUN.replace("@OUT@", out)
        crate(os.path.join(dir, f"q{p}"), f"q{p}", f'json_quote = {{ path = "{REPO}/json_derive/quote" }}\n', body, proc_macro=True)
        uses.append(f"q{p}::run! {{}}\n")
        deps += f'q{p} = {{ path = "q{p}" }}\n'
    crate(dir, "qmain", deps, "".join(uses) + "fn main() {}\n", main=True)
    with open(os.path.join(dir, "Cargo.toml"), "a") as f:
        f.write("[workspace]\nmembers = [\".\"]\n" + PROFILE)
    ok, out = c.cargo(dir, timeout=400)
    if not ok or not all(map(os.path.exists, outs)):
        errs = [l for l in out.splitlines() if l.startswith("error") or l.strip().startswith("-->") or "panicked" in l]
        raise Violation(f"{name}: the templates do not compile", dict(kind="compile", errors=errs[:20], output=out[-3000:]))
    obs = [None] * len(codes)
    for p, o in enumerate(outs):
        lines = open(o, encoding="utf-8").read().splitlines()
        obs[p::parts] = [json.loads(l) for l in lines]
    c.log(f"{name}: {len(codes)} templates compiled and expanded in {len(envs)} environments each")
    shutil.rmtree(dir)
    return obs


def explore(c, name, cfg_text, module="MCQuote", timeout=800, simulate=None):
    """what TLC emits for a universe"""
    got = []
    r = c.tlc(module, cfg_text, on_line=lambda l: got.append(json.loads(json.loads(l))), timeout=timeout, tag=name, simulate=simulate)
    if r["violated"]:
        raise ToolError(f"the specification itself fails {r['violated']} in {name}:\n{r['trace'][:3000]}")
    c.states += r["distinct"]
    c.transitions += r["generated"]
    envs = next(x["envs"] for x in got if "envs" in x)
    return [x for x in got if "envs" not in x], envs, r


def whole(r, t):
    """a template in one of the forms that have no part in its meaning"""
    if "cs" in t:
        return r.choice(["quote!(@scope: %s)", "quote!(@scope: %s)", "quote! { @options(scope): %s }", "quote!(@options(span(proc_macro::Span::call_site()), scope): %s)", "quote!(#(@scope: %s))"]) % commands(t["cs"])
    ts = t["t"]
    one = ts[0]["t"] if len(ts) == 1 else ""
    forms = ["quote!(%s)", "quote![%s]", "quote! { %s }", "quote!(@span(proc_macro::Span::call_site()): %s)", "quote!(@options(span(proc_macro::Span::mixed_site())): %s)"]
    body = text(ts)
    if one == "lit":
        body = text(ts[0]["b"])
        forms = ["quote!(@literal: %s)", "quote!(@options(literal): %s)", "quote!(@options(literal, span(proc_macro::Span::call_site())): %s)", "quote!(#(@literal: %s))"]
    elif one == "params":
        body = item(ts[0])[2:-1]
        head, rest = body[len("@params"):].split(": ", 1)
        forms = ["quote!(@params%s: %s)", "quote!(@options(params%s): %s)", "quote!(@options(span(proc_macro::Span::call_site()), params%s): %s)", "quote!(#(@params%s: %s))"]
        return r.choice(forms) % (head, rest)
    return (forms[0] if r.random() < 0.6 else r.choice(forms)) % body


def check(c, name, cfg_text, simulate=None, take=None, module="MCQuote"):
    ts, envs, r = explore(c, name, cfg_text, simulate=simulate, module=module)
    uniq = list({json.dumps(t): t for t in ts}.values())
    if take and len(uniq) > take:
        uniq = c.rng(name).sample(uniq, take)
    c.parts.append(dict(part=name, direction="spec->code", states=r["distinct"], transitions=r["generated"], templates=len(uniq), secs=round(r["secs"], 1)))
    c.log(f"{name}: {r['distinct']} states, {len(uniq)} templates")
    r2 = c.rng(name + "/forms")
    codes = []
    global TELL
    for t in uniq:
        TELL = t["tells"] = r2.random() < 0.7
        codes.append(whole(r2, t))
    TELL = False
    obs = observe(c, name, codes, envs)
    for t, o in zip(uniq, obs):
        t["obs"] = o
    for t, code in zip(uniq, codes):
        t["src"] = code
    c.nvec += len(uniq) * len(envs)
    c.validate(name, "TraceQuote", uniq, chunk=4000)
