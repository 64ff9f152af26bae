// Projection of the crate's values to the abstract values of the specification, and back.
use crate::mj::{o, s, t, M};
use json::Json;
use std::collections::{HashMap, LinkedList};

/// the normal form [neg, d, e] of a finite double: its shortest decimal digits
pub fn num_of(f: f64) -> M {
    let txt = format!("{:e}", f);
    let (neg, rest) = match txt.strip_prefix('-') { Some(r) => (true, r), None => (false, &txt[..]) };
    let (m, e) = rest.split_once('e').unwrap();
    let mut d: Vec<i64> = m.bytes().filter(|b| *b != b'.').map(|b| (b - b'0') as i64).collect();
    while d.last() == Some(&0) { d.pop(); }
    let e: i64 = if d.is_empty() { 0 } else { e.parse().unwrap() };
    o(vec![("neg", M::B(neg)), ("d", M::A(d.into_iter().map(M::N).collect())), ("e", M::N(e))])
}

pub fn decimal_text(m: &M) -> String {
    let d: String = m.get("d").arr().iter().map(|x| (b'0' + x.int() as u8) as char).collect();
    let sg = if m.get("neg").bool() { "-" } else { "" };
    if d.is_empty() { return format!("{}0", sg); }
    format!("{}{}.{}e{}", sg, &d[..1], if d.len() > 1 { &d[1..] } else { "0" }, m.get("e").int())
}

pub fn f64_of(m: &M) -> f64 { decimal_text(m).parse().unwrap() }

pub fn nonfinite(f: f64) -> M {
    o(vec![("t", s("nf")), ("w", s(if f.is_nan() { "nan" } else if f > 0.0 { "inf" } else { "ninf" }))])
}

pub fn doc_of(js: &Json) -> M {
    match js {
        Json::Null => o(vec![("t", s("null"))]),
        Json::Boolean(b) => o(vec![("t", s("bool")), ("b", M::B(*b))]),
        Json::Number(f) if !f.is_finite() => nonfinite(*f),
        Json::Number(f) => o(vec![("t", s("num")), ("n", num_of(*f))]),
        Json::String(x) => o(vec![("t", s("str")), ("s", t(x))]),
        Json::Array(v) => o(vec![("t", s("arr")), ("a", M::A(v.iter().map(doc_of).collect()))]),
        Json::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            ks.sort();
            o(vec![("t", s("obj")), ("m", M::A(ks.into_iter().map(|k| {
                let (js, list) = &m[k];
                let mut vs: Vec<M> = list.iter().rev().map(doc_of).collect();
                vs.push(doc_of(js));
                M::A(vec![t(k), M::A(vs)])
            }).collect()))])
        }
    }
}

/// build the value through the public representation; `salt` varies order and capacity
pub fn build(m: &M, salt: usize) -> Json {
    match m.get("t").str() {
        "null" => Json::Null,
        "bool" => Json::Boolean(m.get("b").bool()),
        "num" => Json::Number(f64_of(m.get("n"))),
        "nf" => Json::Number(match m.get("w").str() { "nan" => f64::NAN, "inf" => f64::INFINITY, _ => f64::NEG_INFINITY }),
        "str" => Json::String(m.get("s").text()),
        "arr" => Json::Array(m.get("a").arr().iter().map(|x| build(x, salt)).collect()),
        "obj" => {
            let es = m.get("m").arr();
            let mut map: HashMap<String, (Json, LinkedList<Json>)> = HashMap::with_capacity(salt * 7);
            let n = es.len();
            for i in 0..n {
                let e = &es[if salt % 2 == 0 { i } else { n - 1 - i }];
                let vs = e.arr()[1].arr();
                let mut list = LinkedList::new();
                for v in &vs[..vs.len() - 1] { list.push_front(build(v, salt)); }
                map.insert(e.arr()[0].text(), (build(&vs[vs.len() - 1], salt), list));
            }
            Json::Object(map)
        }
        x => panic!("harness: kind {}", x),
    }
}

/// build the value through the crate's own operations
pub fn build_api(m: &M) -> Json {
    match m.get("t").str() {
        "arr" => {
            let mut js = Json::Array(Vec::new());
            for x in m.get("a").arr() { js.push(build_api(x)).unwrap(); }
            js
        }
        "obj" => {
            let mut js = Json::Object(HashMap::new());
            let es = m.get("m").arr();
            let most = es.iter().map(|e| e.arr()[1].arr().len()).max().unwrap_or(0);
            // round robin over the keys, so that duplicates of different keys interleave
            for r in 0..most {
                for e in es.iter().rev() {
                    if let Some(v) = e.arr()[1].arr().get(r) {
                        js.append(e.arr()[0].text(), build_api(v)).unwrap();
                    }
                }
            }
            js
        }
        _ => build(m, 0),
    }
}

pub fn ok_v(v: M) -> M { o(vec![("ok", M::B(true)), ("v", v)]) }
pub fn fail() -> M { o(vec![("ok", M::B(false))]) }
/// a description that does not begin with the kind, or does not end with the message
fn misshown(e: &json::Error) -> Option<M> {
    let k = format!("{:?}", e.kind);
    let d = e.to_string();
    let dy: &dyn std::error::Error = e;
    if d != format!("{}: {}", k, e.msg) || e.kind.to_string() != k || dy.to_string() != d { Some(s(&d)) } else { None }
}
/// the error kind; which kind of parse error is not distinguished.  With JH_SHOW also a wrong description
pub fn fail_e(e: &json::Error) -> M {
    let k = format!("{:?}", e.kind);
    let k = if k == "InvalidJson" || (k.starts_with("Parse") && k.ends_with("Error")) { "Parse".to_string() } else { k };
    let mut r = vec![("ok", M::B(false)), ("e", s(&k))];
    if std::env::var_os("JH_SHOW").is_some() {
        if let Some(d) = misshown(e) { r.push(("shown", d)); }
    }
    o(r)
}
pub fn exact_e(e: &json::Error) -> M {
    let mut r = vec![("ok", M::B(false)), ("e", s(&format!("{:?}", e.kind)))];
    if let Some(d) = misshown(e) { r.push(("shown", d)); }
    o(r)
}
