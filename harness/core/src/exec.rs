// Executes one case against the crate and reports what was observed.
use crate::doc::*;
use crate::mj::{o, s, t, M};
use crate::types::{agree, Entry};
use json::{Finder, Json, Path, ToJson};
use std::cell::RefCell;
use std::collections::{HashMap, LinkedList};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ctx { pub reg: HashMap<String, Entry> }

fn ok() -> M { o(vec![("ok", M::B(true))]) }
fn panics() -> M { o(vec![("panic", M::B(true))]) }

fn rv(r: Result<&Json, json::Error>) -> M { match r { Ok(v) => ok_v(doc_of(v)), Err(e) => fail_e(&e) } }
fn rvm(r: Result<&mut Json, json::Error>) -> M { match r { Ok(v) => ok_v(doc_of(v)), Err(e) => fail_e(&e) } }
fn ru(r: Result<(), json::Error>) -> M { match r { Ok(()) => ok(), Err(e) => fail_e(&e) } }

enum Seg { K(String), I(usize) }
fn segs(m: &M) -> Vec<Seg> {
    m.arr().iter().map(|x| if x.get("w").str() == "key" { Seg::K(x.get("k").text()) } else { Seg::I(index(x)) }).collect()
}
/// An index above 1000000 stands for one of these (Far in JPath).
fn index(m: &M) -> usize {
    let far = [1usize << 31, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 63, (1 << 63) + 1, usize::MAX];
    let i = m.get("i").int() as usize;
    if i > 1_000_000 { far[i - 1_000_001] } else { i }
}
/// every accepted form of a step
fn finder(sg: &Seg, n: usize) -> Finder {
    match sg {
        Seg::K(k) => match n % 4 { 0 => Finder::from(&k[..]), 1 => Finder::from(k.clone()), 2 => Finder::from(k), _ => Finder::Key(k.clone()) },
        Seg::I(i) => match n % 3 { 0 => Finder::from(*i), 1 => Finder::from(i), _ => Finder::Index(*i) },
    }
}
fn path(ss: &[Seg], n: usize) -> Path {
    let mut p = match &ss[0] {
        Seg::K(k) => match n % 3 { 0 => Path::new(&k[..]), 1 => Path::new(k.clone()), _ => Path::new(k) },
        Seg::I(i) => if n % 2 == 0 { Path::new(*i) } else { Path::new(i) },
    };
    for (j, x) in ss[1..].iter().enumerate() { p.append(finder(x, n + j)); }
    p
}

thread_local! { static LOG: RefCell<Vec<usize>> = RefCell::new(vec![]); }
fn tick<T>(n: usize, x: T) -> T { LOG.with(|l| l.borrow_mut().push(n)); x }
/// the arguments were evaluated once each, in order
fn ticked(n: usize) -> bool { LOG.with(|l| { let mut l = l.borrow_mut(); let r = *l == (0..n).collect::<Vec<_>>(); l.clear(); r }) }
fn once(r: M, n: usize) -> M { if ticked(n) { r } else { o(vec![("ok", M::B(false)), ("evaluated", M::B(false))]) } }

// calls $m with the steps as macro arguments of their own types, for up to three steps
macro_rules! with_args {
    ( $ss:expr, $go:ident ) => { match &$ss[..] {
        [Seg::K(a)] => $go!(tick(0, &a[..])),
        [Seg::I(a)] => $go!(tick(0, *a)),
        [Seg::K(a), Seg::K(b)] => $go!(tick(0, &a[..]), tick(1, b.clone())),
        [Seg::K(a), Seg::I(b)] => $go!(tick(0, a), tick(1, *b)),
        [Seg::I(a), Seg::K(b)] => $go!(tick(0, a), tick(1, &b[..])),
        [Seg::I(a), Seg::I(b)] => $go!(tick(0, *a), tick(1, b)),
        [Seg::K(a), Seg::K(b), Seg::K(c)] => $go!(tick(0, &a[..]), tick(1, &b[..]), tick(2, &c[..])),
        [Seg::K(a), Seg::K(b), Seg::I(c)] => $go!(tick(0, a.clone()), tick(1, &b[..]), tick(2, *c)),
        [Seg::K(a), Seg::I(b), Seg::K(c)] => $go!(tick(0, &a[..]), tick(1, *b), tick(2, c.clone())),
        [Seg::K(a), Seg::I(b), Seg::I(c)] => $go!(tick(0, &a[..]), tick(1, b), tick(2, *c)),
        [Seg::I(a), Seg::K(b), Seg::K(c)] => $go!(tick(0, *a), tick(1, b), tick(2, &c[..])),
        [Seg::I(a), Seg::K(b), Seg::I(c)] => $go!(tick(0, *a), tick(1, &b[..]), tick(2, c)),
        [Seg::I(a), Seg::I(b), Seg::K(c)] => $go!(tick(0, a), tick(1, *b), tick(2, c)),
        [Seg::I(a), Seg::I(b), Seg::I(c)] => $go!(tick(0, *a), tick(1, *b), tick(2, *c)),
        [Seg::K(a), Seg::K(b), Seg::K(c), Seg::K(d)] => $go!(tick(0, a), tick(1, b), tick(2, c), tick(3, d)),
        [Seg::I(a), Seg::I(b), Seg::I(c), Seg::I(d)] => $go!(tick(0, a), tick(1, b), tick(2, c), tick(3, d)),
        [Seg::K(a), Seg::I(b), Seg::K(c), Seg::I(d)] => $go!(tick(0, a), tick(1, b), tick(2, c), tick(3, d)),
        [Seg::I(a), Seg::K(b), Seg::I(c), Seg::K(d)] => $go!(tick(0, a), tick(1, b), tick(2, c), tick(3, d)),
        other => {
            let f: Vec<Finder> = other.iter().enumerate().map(|(i, x)| finder(x, i)).collect();
            let mut f = f.into_iter();
            let n = other.len();
            match n {
                4 => $go!(tick(0, f.next().unwrap()), tick(1, f.next().unwrap()), tick(2, f.next().unwrap()), tick(3, f.next().unwrap())),
                5 => $go!(tick(0, f.next().unwrap()), tick(1, f.next().unwrap()), tick(2, f.next().unwrap()), tick(3, f.next().unwrap()), tick(4, f.next().unwrap())),
                6 => $go!(tick(0, f.next().unwrap()), tick(1, f.next().unwrap()), tick(2, f.next().unwrap()), tick(3, f.next().unwrap()), tick(4, f.next().unwrap()), tick(5, f.next().unwrap()),),
                _ => panic!("harness: too many steps"),
            }
        }
    } }
}

fn op(js: &mut Json, m: &M) -> M {
    let via = m.opt("via").map_or(0, |x| x.int()) as usize;
    let x = |f: &str| build(m.get(f), via);
    match m.get("o").str() {
        "get" => rv(js.get(&m.get("s").text())),
        "find" => {
            let ss = segs(m.get("p"));
            match via {
                0 | 1 | 2 | 3 => rv(js.find(path(&ss, via))),
                4 => { macro_rules! go { ($($a:expr),* $(,)?) => { rv(js.find(json::path!($($a),*))) } } let r = with_args!(ss, go); once(r, ss.len()) }
                5 => { macro_rules! go { ($($a:expr),* $(,)?) => { rv(js.find(json::path!($($a),*,))) } } let r = with_args!(ss, go); once(r, ss.len()) }
                6 => { macro_rules! go { ($($a:expr),* $(,)?) => { rv(json::find!(js, $($a),*,)) } } let r = with_args!(ss, go); once(r, ss.len()) }
                _ => { macro_rules! go { ($($a:expr),* $(,)?) => { rv(json::find!(js, $($a),*)) } } let r = with_args!(ss, go); once(r, ss.len()) }
            }
        }
        "find_mut" => {
            let ss = segs(m.get("p"));
            let r = if via % 2 == 0 { js.find_mut(path(&ss, via)) }
                    else { macro_rules! go { ($($a:expr),* $(,)?) => { js.find_mut(json::path!($($a),*)) } } let r = with_args!(ss, go); ticked(ss.len()); r };
            match r { Ok(v) => { *v = x("x"); ok_v(doc_of(v)) } Err(e) => fail_e(&e) }
        }
        "index" => {
            let ss = segs(m.get("p"));
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut cur: &Json = js;
                for (j, sg) in ss.iter().enumerate() {
                    cur = match sg {
                        Seg::K(k) => match (via + j) % 3 { 0 => &cur[&k[..]], 1 => &cur[k.clone()], _ => &cur[k] },
                        Seg::I(i) => match (via + j) % 2 { 0 => &cur[*i], _ => &cur[i] },
                    };
                }
                ok_v(doc_of(cur))
            }));
            r.unwrap_or_else(|_| panics())
        }
        "index_mut" => {
            let ss = segs(m.get("p"));
            let v = x("x");
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut cur: &mut Json = js;
                for (j, sg) in ss.iter().enumerate() {
                    cur = match sg {
                        Seg::K(k) => match (via + j) % 3 { 0 => &mut cur[&k[..]], 1 => &mut cur[k.clone()], _ => &mut cur[k] },
                        Seg::I(i) => match (via + j) % 2 { 0 => &mut cur[*i], _ => &mut cur[i] },
                    };
                }
                *cur = v;
                ok()
            }));
            r.unwrap_or_else(|_| panics())
        }
        "set" => {
            let p = m.get("s").text();
            let r = if via % 2 == 0 { js.set(&p, x("x")) } else { let v = x("x"); js.set(&p, &v as &dyn Same) };
            written(r, m, via)
        }
        "update" => {
            let ss = segs(m.get("p"));
            let v = x("x");
            match via {
                0 | 1 => { let r = js.update(path(&ss, via), v); written(r, m, via) }
                2 | 3 => { macro_rules! go { ($($a:expr),* $(,)?) => { js.update(json::path!($($a),*), v) } } let r = with_args!(ss, go); ticked(ss.len()); written(r, m, via) }
                4 | 5 => { let c = RefCell::new(0); macro_rules! go { ($($a:expr),* $(,)?) => { json::update!({ *c.borrow_mut() += 1; v } => js, $($a),*) } }
                           let r = with_args!(ss, go); let r = written(r, m, via); if *c.borrow() == 1 { once(r, ss.len()) } else { fail() } }
                _ => { macro_rules! go { ($($a:expr),* $(,)?) => { json::update!(v => js, $($a),* ,) } } let r = with_args!(ss, go); let r = written(r, m, via); once(r, ss.len()) }
            }
        }
        "del" => match js.del(&m.get("s").text()) { Ok(v) => ok_v(doc_of(&v)), Err(e) => fail_e(&e) },
        "discard" => {
            let ss = segs(m.get("p"));
            let r = match via {
                0 | 1 | 2 => js.discard(path(&ss, via)),
                3 => { macro_rules! go { ($($a:expr),* $(,)?) => { js.discard(json::path!($($a),*)) } } let r = with_args!(ss, go); ticked(ss.len()); r }
                4 => { macro_rules! go { ($($a:expr),* $(,)?) => { json::discard!(js, $($a),*,) } } let r = with_args!(ss, go); if !ticked(ss.len()) { return fail(); } r }
                _ => { macro_rules! go { ($($a:expr),* $(,)?) => { json::discard!(js, $($a),*) } } let r = with_args!(ss, go); if !ticked(ss.len()) { return fail(); } r }
            };
            match r { Ok(v) => ok_v(doc_of(&v)), Err(e) => fail_e(&e) }
        }
        "insert" => if via == 2 { ru(js.add_option(m.get("k").text(), x("x"), false)) }
                    else if via % 2 == 0 { ru(js.insert(m.get("k").text(), x("x"))) } else { ru(js.insert(&m.get("k").text()[..], x("x"))) },
        "append" => if via == 2 { ru(js.add_option(m.get("k").text(), x("x"), true)) }
                    else if via % 2 == 0 { ru(js.append(m.get("k").text(), x("x"))) } else { ru(js.append(&m.get("k").text()[..], x("x"))) },
        "delete" => ru(js.delete(&m.get("k").text())),
        "push" => ru(js.push(x("x"))),
        "replace" => ru(js.replace(index(m), x("x"))),
        "remove" => ru(js.remove(index(m))),
        "merge" => match js.index_and_merge(&m.get("k").text()) {
            Ok(v) => o(vec![("ok", M::B(true)), ("l", M::A(v.into_iter().map(doc_of).collect()))]),
            Err(e) => fail_e(&e),
        },
        "print" => o(vec![("ok", M::B(true)), ("s", t(&js.to_string()))]),
        "reparse" => match Json::parse(&js.to_string()) { Ok(v) => { *js = v; ok() } Err(e) => fail_e(&e) },
        x => panic!("harness: op {}", x),
    }
}

/// Json through another ToJson type
trait Same { fn js(&self) -> Json; }
impl Same for Json { fn js(&self) -> Json { self.clone() } }
impl ToJson for &dyn Same { fn to_json(&self) -> Json { self.js() } }

fn written(r: Result<&mut Json, json::Error>, m: &M, via: usize) -> M {
    match r {
        Ok(v) => {
            let seen = doc_of(v);
            if let Some(y) = m.opt("y") { *v = build(y, via); }
            ok_v(seen)
        }
        Err(e) => fail_e(&e),
    }
}

fn is_harness(e: &Box<dyn std::any::Any + Send>) -> bool {
    e.downcast_ref::<String>().map_or(false, |x| x.starts_with("harness:")) || e.downcast_ref::<&str>().map_or(false, |x| x.starts_with("harness:"))
}

/// An operation with a field n has its path text or its steps n times over.
fn repeated(m: &M) -> M {
    let n = match m.opt("n") { Some(n) => n.int() as usize, None => return m.clone() };
    let mut fields = match m { M::O(f) => f.clone(), _ => unreachable!() };
    for k in &["s", "p"] {
        if let Some(M::A(a)) = fields.get(*k) {
            let all = std::iter::repeat(a.clone()).take(n).flatten().collect();
            fields.insert(k.to_string(), M::A(all));
        }
    }
    M::O(fields)
}

fn hist(m: &M) -> M {
    let mut js = if m.opt("api").is_some() { build_api(m.get("v")) } else { build(m.get("v"), 0) };
    let mut out = vec![];
    for p in m.get("ops").arr() {
        // a panic is a reply of its own; the specification knows it only for the index operators
        let p = &repeated(p);
        let r = catch_unwind(AssertUnwindSafe(|| op(&mut js, p)));
        let r = match r {
            Ok(r) => r,
            Err(e) => { if is_harness(&e) { std::panic::resume_unwind(e) } panics() }
        };
        out.push(o(vec![("r", r), ("v", doc_of(&js))]));
    }
    M::A(out)
}

fn parse(m: &M) -> M {
    let txt = m.get("s").text();
    let one = |r: Result<Json, json::Error>| match r { Ok(v) => ok_v(doc_of(&v)), Err(_) => fail() };
    agree(vec![one(Json::parse(&txt)), one(txt.parse::<Json>()), one(json::decode::<Json>(&txt))])
}

fn accept(m: &M) -> M {
    let txt = m.get("s").text();
    let a = vec![Json::parse(&txt).is_ok(), txt.parse::<Json>().is_ok(), json::decode::<Json>(&txt).is_ok()];
    if a[0] == a[1] && a[0] == a[2] { o(vec![("ok", M::B(a[0]))]) } else { s_("entry points differ") }
}

const SUFFIXES: [&str; 22] = ["", "\"", "]", "}", "1", " ", "\"]", "\"}", "}]", "]}", ",1]", ":1}", "1]", "1}", "null", "\":1}", ",\"a\":1}", "\\", "0\"]", "a\"", "]]", "DC96\""];

/// a prefix and tokens after which no continuation is valid
fn dead(m: &M) -> M {
    let p = m.get("s").text();
    for x in m.get("x").arr() {
        for sx in SUFFIXES.iter() {
            let txt = format!("{}{}{}", p, x.text(), sx);
            if Json::parse(&txt).is_ok() { return o(vec![("ok", M::B(true)), ("text", s(&txt))]); }
        }
    }
    fail()
}

fn print(m: &M) -> M {
    let v = m.get("v");
    let ways = vec![build(v, 0), build(v, 1), build_api(v), build(v, 3)];
    let mut texts: Vec<M> = ways.iter().map(|j| t(&j.to_string())).collect();
    texts.push(t(&json::encode(&ways[0])));
    texts.push(t(&json::encode(&ways[2])));
    texts.push(t(&ways[1].clone().to_string()));
    // built by changing another value
    let mut host = json::array![1, ways[0].clone()];
    host.set("#1", ways[2].clone()).unwrap();
    texts.push(t(&host.find(1).unwrap().to_string()));
    o(vec![("s", agree(texts))])
}

fn round(m: &M) -> M {
    let js = build(m.get("v"), 0);
    let s1 = js.to_string();
    match Json::parse(&s1) {
        Ok(v) => o(vec![("ok", M::B(true)), ("v", doc_of(&v)), ("same", M::B(v.to_string() == s1))]),
        Err(_) => fail(),
    }
}

/// what a path string means, read off the value that storing through it builds from null
fn path_of(m: &M) -> M {
    let p = m.get("s").text();
    let big = m.opt("big").is_some();
    let mut js = Json::Null;
    let syntax = |e: &json::Error| format!("{:?}", e.kind) == "PathSyntaxError";
    // reading and deleting from null must fail: by syntax or by kind
    let g = match js.get(&p) { Err(e) => syntax(&e), Ok(_) => return s_("get of null succeeds") };
    let d = match js.del(&p) { Err(e) => syntax(&e), Ok(_) => return s_("del of null succeeds") };
    if g != d || doc_of(&js).get("t").str() != "null" { return s_("get and del differ"); }
    let og = match json::get::<Json>("null", &p) { Err(e) => syntax(&e), Ok(_) => return s_("get of null succeeds") };
    let od = match json::del("null", &p) { Err(e) => syntax(&e), Ok(_) => return s_("del of null succeeds") };
    if og != g || od != g { return s_("one-shot and methods differ"); }
    if big { return if g { fail() } else { ok() }; }
    let st = match js.set(&p, true) {
        Err(e) => { if !syntax(&e) { return s_("set fails with another error"); } true }
        Ok(_) => false,
    };
    let ost = match json::set("null", &p, true) {
        Err(e) => { if !syntax(&e) { return s_("json::set fails with another error"); } None }
        Ok(x) => Some(x),
    };
    if st != g || ost.is_none() != g { return s_("set and get differ"); }
    if g { return if doc_of(&js).get("t").str() == "null" { fail() } else { s_("failed set changed the value") }; }
    if js.to_string() != ost.unwrap() { return s_("json::set and set differ"); }
    // the same path finds the stored value, and deletes it
    match js.get(&p) { Ok(Json::Boolean(true)) => (), _ => return s_("get does not find what set stored") }
    match json::get::<bool>(&js.to_string(), &p) { Ok(true) => (), _ => return s_("json::get does not find what set stored") }
    let mut out = vec![];
    let mut cur = js.clone();
    loop {
        let next = match &cur {
            Json::Boolean(true) => break,
            Json::Object(mm) if mm.len() == 1 => {
                let (k, (v, l)) = mm.iter().next().unwrap();
                if !l.is_empty() { return s_("duplicates"); }
                out.push(o(vec![("w", s("key")), ("k", t(k))]));
                v.clone()
            }
            Json::Array(v) if !v.is_empty() && v[..v.len() - 1].iter().all(|x| *x == Json::Null) => {
                out.push(o(vec![("w", s("idx")), ("i", M::N(v.len() as i64 - 1))]));
                v[v.len() - 1].clone()
            }
            _ => return s_("unexpected shape"),
        };
        cur = next;
    }
    match js.del(&p) { Ok(Json::Boolean(true)) => (), _ => return s_("del does not find what set stored") }
    if js.get(&p).is_ok() { return s_("del leaves the value"); }
    o(vec![("ok", M::B(true)), ("segs", M::A(out))])
}
fn s_(x: &str) -> M { o(vec![("ok", M::B(false)), ("differ", s(x))]) }

fn one(cx: &Ctx, m: &M) -> M {
    let txt = m.get("t").text();
    let p = m.get("s").text();
    match m.get("o").str() {
        "get" => (ent(cx, m).one_get)(&txt, &p),
        "set" => (ent(cx, m).one_set)(&txt, &p, m.get("x")),
        "del" => match json::del(&txt, &p) { Ok(r) => o(vec![("ok", M::B(true)), ("s", t(&r))]), Err(e) => fail_e(&e) },
        "decode" => (ent(cx, m).decode)(&txt),
        x => panic!("harness: one-shot {}", x),
    }
}
fn ent<'a>(cx: &'a Ctx, m: &M) -> &'a Entry {
    let k = m.get("ty").write();
    cx.reg.get(&k).unwrap_or_else(|| panic!("harness: type {} not registered", k))
}

/// the same value by way of others
fn detour(m: &M) -> Json {
    let mut js = Json::Null;
    js.set("#1.x.y", build(m, 0)).unwrap();
    let mut js = js.discard(Path::new(1)).unwrap().del("x.y").unwrap();
    match m.get("t").str() {
        "arr" => {
            for i in 0..9 { js.push(i).unwrap(); }
            for _ in 0..9 { let n = m.get("a").arr().len(); js.remove(n).unwrap(); }
        }
        "obj" => {
            for i in 0..40 { js.append(format!("\u{0}junk{}", i), i).unwrap(); }
            for i in 0..40 { js.delete(&format!("\u{0}junk{}", i)).unwrap(); }
        }
        _ => (),
    }
    js
}

/// nothing is left as it was
fn spoil(js: &mut Json) {
    match js {
        Json::Array(v) => { for x in v.iter_mut() { spoil(x); } v.push(Json::Null); }
        Json::Object(m) => {
            for (_, (x, l)) in m.iter_mut() { spoil(x); for y in l.iter_mut() { spoil(y); } l.push_front(Json::Null); }
            m.insert("spoiled".to_string(), (Json::Null, LinkedList::new()));
        }
        Json::String(s) => s.push('!'),
        Json::Number(f) => *f = 12345.5,
        Json::Boolean(b) => *b = !*b,
        Json::Null => *js = Json::Boolean(true),
    }
}

/// == in every direction, on values built in different ways and inside others; and copies
fn eq(m: &M) -> M {
    let (a, b) = (m.get("a"), m.get("b"));
    let ways = |x: &M| vec![build(x, 0), build(x, 1), build_api(x), detour(x)];
    let (xs, ys) = (ways(a), ways(b));
    let mut seen = vec![];
    for x in &xs {
        for y in &ys {
            let e = x == y;
            seen.push(e);
            seen.push(y == x);
            seen.push(!(x != y));
        }
    }
    let (x, y) = (&xs[0], &ys[2]);
    seen.push(json::array![1, x.clone()] == json::array![1, y.clone()]);
    seen.push(json::object! { "a" => x.clone(), "b" => 2 } == json::object! { "b" => 2, "a" => y.clone() });
    seen.push(json::object! { "a" => x.clone(), "a" => 2 } == json::object! { "a" => y.clone(), "a" => 2 });
    seen.push(Some(x) == Some(y));
    seen.push(vec![x.clone()] == vec![y.clone()]);
    if seen.iter().any(|e| *e != seen[0]) { return s_("equality depends on direction or on how the values were built"); }
    let mut copies = vec![];
    for x in &xs {
        let mut c = x.clone();
        copies.push(doc_of(&c));
        spoil(&mut c);
        copies.push(doc_of(x));
        let mut c = ys[1].clone();
        c.clone_from(x);
        copies.push(doc_of(&c));
        copies.push(doc_of(&x.to_json()));
        copies.push(x.convert::<Json>().map_or(fail(), |v| doc_of(&v)));
        copies.push(doc_of(x));
    }
    o(vec![("eq", M::B(seen[0])), ("clone", agree(copies))])
}

/// the error of a text that is not JSON, the same from every entry point
fn failing(m: &M) -> M {
    let txt = m.get("s").text();
    let mut seen = vec![];
    let mut put = |ok: bool, e: Option<json::Error>| seen.push(match e { Some(e) => exact_e(&e), None => o(vec![("ok", M::B(ok))]) });
    put(true, Json::parse(&txt).err());
    put(true, txt.parse::<Json>().err());
    put(true, json::decode::<Json>(&txt).err());
    if seen.iter().any(|x| *x == ok()) { return agree(seen); }
    let mut put = |e: Option<json::Error>| seen.push(match e { Some(e) => exact_e(&e), None => ok() });
    put(json::decode::<Vec<i32>>(&txt).err());
    for p in ["a", "#0.b", "", "#x"] {
        put(json::get::<Json>(&txt, p).err());
        put(json::get::<bool>(&txt, p).err());
        put(json::set(&txt, p, 1).err());
        put(json::del(&txt, p).err());
    }
    agree(seen)
}

/// object! and array!
fn make(m: &M) -> M {
    let es = m.get("e").arr();
    let tr = m.opt("trail").is_some();
    if m.get("o").str() == "object" {
        let e: Vec<(String, Json)> = es.iter().map(|p| (p.arr()[0].text(), build(&p.arr()[1], 0))).collect();
        macro_rules! kv { ($i:expr) => { { tick(2 * $i, ()); &e[$i].0[..] } } }
        macro_rules! vv { ($i:expr) => { { tick(2 * $i + 1, ()); e[$i].1.clone() } } }
        let js = match (e.len(), tr) {
            (0, _) => json::object! {},
            (1, false) => json::object! { kv!(0) => vv!(0) },
            (1, true) => json::object! { kv!(0).to_string() => vv!(0), },
            (2, false) => json::object! { kv!(0) => vv!(0), kv!(1) => vv!(1) },
            (2, true) => json::object! { kv!(0) => vv!(0), kv!(1).to_string() => vv!(1), },
            (3, false) => json::object! { kv!(0) => vv!(0), kv!(1) => vv!(1), kv!(2) => vv!(2) },
            (3, true) => json::object! { kv!(0) => vv!(0), kv!(1) => vv!(1), kv!(2) => vv!(2), },
            (4, false) => json::object! { kv!(0) => vv!(0), kv!(1) => vv!(1), kv!(2) => vv!(2), kv!(3) => vv!(3) },
            (4, true) => json::object! { kv!(0) => vv!(0), kv!(1) => vv!(1), kv!(2) => vv!(2), kv!(3) => vv!(3), },
            (5, _) => json::object! { kv!(0) => vv!(0), kv!(1) => vv!(1), kv!(2) => vv!(2), kv!(3) => vv!(3), kv!(4) => vv!(4) },
            (6, _) => json::object! { kv!(0) => vv!(0), kv!(1) => vv!(1), kv!(2) => vv!(2), kv!(3) => vv!(3), kv!(4) => vv!(4), kv!(5) => vv!(5), },
            _ => panic!("harness: entries"),
        };
        once(doc_of(&js), 2 * e.len())
    } else {
        let e: Vec<Json> = es.iter().map(|p| build(p, 0)).collect();
        macro_rules! vv { ($i:expr) => { { tick($i, ()); e[$i].clone() } } }
        let js = match (e.len(), tr) {
            (0, _) => json::array![],
            (1, false) => json::array![vv!(0)],
            (1, true) => json::array![vv!(0),],
            (2, false) => json::array![vv!(0), vv!(1)],
            (2, true) => json::array![vv!(0), vv!(1),],
            (3, false) => json::array![vv!(0), vv!(1), vv!(2)],
            (3, true) => json::array![vv!(0), vv!(1), vv!(2),],
            (4, false) => json::array![vv!(0), vv!(1), vv!(2), vv!(3)],
            (4, true) => json::array![vv!(0), vv!(1), vv!(2), vv!(3),],
            (5, _) => json::array![vv!(0), vv!(1), vv!(2), vv!(3), vv!(4)],
            (6, _) => json::array![vv!(0), vv!(1), vv!(2), vv!(3), vv!(4), vv!(5),],
            _ => panic!("harness: elements"),
        };
        once(doc_of(&js), e.len())
    }
}

/// macros with native arguments and nested macros: a fixed shape with varying leaves
fn mixed(m: &M) -> M {
    let k = m.get("k").text();
    let n = m.get("i").int() as i32;
    let x = m.get("s").text();
    let b = m.get("b").bool();
    let list: Vec<i32> = m.get("l").arr().iter().map(|v| v.int() as i32).collect();
    let opt = if b { Some(n) } else { None };
    let js = json::object! {
        k.clone() => n,
        &k => json::array![n, &x[..], b, json::array![], json::object!{ &x => b, }, opt, list.clone()],
        n => json::object! { "x" => x.clone(), "n" => json::object!{}, "x" => Json::Null },
        'c' => list,
        b => opt,
    };
    doc_of(&js)
}

pub fn exec(cx: &Ctx, m: &M) -> M {
    let r = catch_unwind(AssertUnwindSafe(|| match m.get("k").str() {
        "parse" => parse(m),
        "accept" => accept(m),
        "dead" => dead(m),
        "print" => print(m),
        "round" => round(m),
        "hist" => hist(m),
        "path" => path_of(m),
        "eq" => eq(m),
        "fail" => failing(m),
        "conv" => (ent(cx, m).conv)(m.get("v")),
        "nat" => (ent(cx, m).nat)(m.get("x")),
        "one" => one(cx, m),
        "make" => make(m),
        "mixed" => mixed(m.get("in")),
        x => panic!("harness: case kind {}", x),
    }));
    LOG.with(|l| l.borrow_mut().clear());
    match r {
        Ok(m) => m,
        Err(e) => {
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            if msg.starts_with("harness:") { eprintln!("{}", msg); std::process::exit(3); }
            o(vec![("crash", s(&msg))])
        }
    }
}
