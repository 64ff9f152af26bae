// Native types: projection of their values, and the calls of the crate that involve them.
use crate::doc::*;
use crate::mj::{o, s, t, M};
use json::{FromJson, Json, ToJson};
use std::collections::HashMap;

pub trait Nat: ToJson + FromJson {
    fn ty() -> M;
    fn to_m(&self) -> M;
    fn from_m(m: &M) -> Self;
    /// the encodings of the reference forms
    fn refs(&self) -> Vec<Json> { vec![] }
}

pub trait KeyTy: ToString + std::str::FromStr + std::hash::Hash + Eq {
    fn name() -> &'static str;
}
impl KeyTy for String { fn name() -> &'static str { "str" } }
impl KeyTy for bool { fn name() -> &'static str { "bool" } }

fn key<K: KeyTy>(m: &M) -> K {
    m.text().parse::<K>().ok().expect("harness: key text")
}

impl Nat for String {
    fn ty() -> M { o(vec![("c", s("str"))]) }
    fn to_m(&self) -> M { o(vec![("n", s("str")), ("s", t(self))]) }
    fn from_m(m: &M) -> String { m.get("s").text() }
    fn refs(&self) -> Vec<Json> {
        let x: &str = self;
        vec![x.to_json(), (&x).to_json(), Json::parse(&json::encode(x)).unwrap(), Json::parse(&json::encode(&x)).unwrap()]
    }
}
impl Nat for bool {
    fn ty() -> M { o(vec![("c", s("bool"))]) }
    fn to_m(&self) -> M { o(vec![("n", s("bool")), ("b", M::B(*self))]) }
    fn from_m(m: &M) -> bool { m.get("b").bool() }
    fn refs(&self) -> Vec<Json> { let r = &self; vec![<&bool as ToJson>::to_json(r)] }
}
impl Nat for Json {
    fn ty() -> M { o(vec![("c", s("json"))]) }
    fn to_m(&self) -> M { o(vec![("n", s("json")), ("v", doc_of(self))]) }
    fn from_m(m: &M) -> Json { build(m.get("v"), 1) }
}

/// an integer in decimal, as a normal form
pub fn int_m(txt: &str) -> M {
    let (neg, ds) = match txt.strip_prefix('-') { Some(r) => (true, r), None => (false, txt) };
    let ds = ds.trim_start_matches('0');
    let e = ds.len() as i64 - 1;
    let ds = ds.trim_end_matches('0');
    let e = if ds.is_empty() { 0 } else { e };
    o(vec![("neg", M::B(neg && !ds.is_empty())), ("d", M::A(ds.bytes().map(|b| M::N((b - b'0') as i64)).collect())), ("e", M::N(e))])
}
pub fn int_text(m: &M) -> String {
    let d = m.get("d").arr();
    if d.is_empty() { return "0".to_string(); }
    let mut x: String = d.iter().map(|x| (b'0' + x.int() as u8) as char).collect();
    for _ in d.len() as i64..m.get("e").int() + 1 { x.push('0'); }
    if m.get("neg").bool() { x.insert(0, '-'); }
    x
}

macro_rules! int_ty { ( $($ty:ident)* ) => { $(
    impl Nat for $ty {
        fn ty() -> M { o(vec![("c", s("int")), ("r", s(stringify!($ty)))]) }
        fn to_m(&self) -> M { o(vec![("n", s("num")), ("v", int_m(&self.to_string()))]) }
        fn from_m(m: &M) -> $ty { int_text(m.get("v")).parse().expect("harness: int value") }
        fn refs(&self) -> Vec<Json> { let r = &self; vec![<&$ty as ToJson>::to_json(r)] }
    }
    impl KeyTy for $ty { fn name() -> &'static str { stringify!($ty) } }
)* } }
int_ty!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

impl Nat for f64 {
    fn ty() -> M { o(vec![("c", s("f64"))]) }
    fn to_m(&self) -> M {
        if self.is_finite() { o(vec![("n", s("num")), ("v", num_of(*self))]) }
        else { o(vec![("n", s("nf")), ("w", nonfinite(*self).get("w").clone())]) }
    }
    fn from_m(m: &M) -> f64 {
        if m.get("n").str() == "nf" {
            return match m.get("w").str() { "nan" => f64::NAN, "inf" => f64::INFINITY, _ => f64::NEG_INFINITY };
        }
        f64_of(m.get("v"))
    }
    fn refs(&self) -> Vec<Json> { let r = &self; vec![<&f64 as ToJson>::to_json(r)] }
}
impl Nat for f32 {
    fn ty() -> M { o(vec![("c", s("f32"))]) }
    fn to_m(&self) -> M { (*self as f64).to_m() }
    fn from_m(m: &M) -> f32 { f64::from_m(m) as f32 }
    fn refs(&self) -> Vec<Json> { let r = &self; vec![<&f32 as ToJson>::to_json(r)] }
}

impl<T: Nat> Nat for Option<T> {
    fn ty() -> M { o(vec![("c", s("opt")), ("e", T::ty())]) }
    fn to_m(&self) -> M {
        match self { None => o(vec![("n", s("none"))]), Some(x) => o(vec![("n", s("some")), ("v", x.to_m())]) }
    }
    fn from_m(m: &M) -> Option<T> { if m.get("n").str() == "none" { None } else { Some(T::from_m(m.get("v"))) } }
}
impl<T: Nat> Nat for Vec<T> {
    fn ty() -> M { o(vec![("c", s("vec")), ("e", T::ty())]) }
    fn to_m(&self) -> M { o(vec![("n", s("list")), ("a", M::A(self.iter().map(|x| x.to_m()).collect()))]) }
    fn from_m(m: &M) -> Vec<T> { m.get("a").arr().iter().map(T::from_m).collect() }
    fn refs(&self) -> Vec<Json> { let r: &[T] = self; vec![r.to_json(), Json::parse(&json::encode(&r)).unwrap()] }
}
impl<K: KeyTy, V: Nat> Nat for Vec<(K, V)> {
    fn ty() -> M { o(vec![("c", s("pairs")), ("k", s(K::name())), ("e", V::ty())]) }
    /// grouped by key in ascending order, keeping the order of the values of one key; the order of
    /// different keys is not specified.  "adj" says that equal keys are adjacent.
    fn to_m(&self) -> M {
        let mut v: Vec<(String, M)> = self.iter().map(|(k, x)| (k.to_string(), x.to_m())).collect();
        let mut runs = 0;
        for i in 0..v.len() { if i == 0 || v[i].0 != v[i - 1].0 { runs += 1; } }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        let mut ks = 0;
        for i in 0..v.len() { if i == 0 || v[i].0 != v[i - 1].0 { ks += 1; } }
        let a = M::A(v.into_iter().map(|(k, x)| M::A(vec![t(&k), x])).collect());
        if runs == ks { o(vec![("n", s("pairs")), ("a", a)]) }
        else { o(vec![("n", s("pairs")), ("a", a), ("adj", M::B(false))]) }
    }
    fn from_m(m: &M) -> Vec<(K, V)> {
        m.get("a").arr().iter().map(|p| (key::<K>(&p.arr()[0]), V::from_m(&p.arr()[1]))).collect()
    }
    fn refs(&self) -> Vec<Json> { let r: &[(K, V)] = self; vec![r.to_json(), Json::parse(&json::encode(&r)).unwrap()] }
}
impl<K: KeyTy, V: Nat> Nat for HashMap<K, V> {
    fn ty() -> M { o(vec![("c", s("map")), ("k", s(K::name())), ("e", V::ty())]) }
    fn to_m(&self) -> M {
        let mut v: Vec<(String, M)> = self.iter().map(|(k, x)| (k.to_string(), x.to_m())).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        o(vec![("n", s("map")), ("a", M::A(v.into_iter().map(|(k, x)| M::A(vec![t(&k), x])).collect()))])
    }
    fn from_m(m: &M) -> HashMap<K, V> {
        m.get("a").arr().iter().map(|p| (key::<K>(&p.arr()[0]), V::from_m(&p.arr()[1]))).collect()
    }
}

fn res<T: Nat>(r: Result<T, json::Error>) -> M {
    match r { Ok(x) => ok_v(x.to_m()), Err(e) => fail_e(&e) }
}
/// all results are the same, or the difference is reported
pub fn agree(rs: Vec<M>) -> M {
    for r in &rs[1..] {
        if *r != rs[0] { return o(vec![("ok", M::B(false)), ("differ", M::A(rs.clone()))]); }
    }
    rs[0].clone()
}

pub fn conv<T: Nat>(m: &M) -> M {
    let js = build(m, 1);
    let mut rs = vec![res(js.convert::<T>()), res(T::from_json(&js)), res(build_api(m).convert::<T>())];
    let arr = Json::Array(vec![Json::Null, js.clone()]);
    rs.push(res(arr[1].convert::<T>()));
    if !m.write().contains("\"nf\"") {
        rs.push(res(json::decode::<T>(&js.to_string())));
        rs.push(res(json::get::<T>(&format!("[{}]", js.to_string()), "#0")));
    }
    agree(rs)
}
/// encode: the value, its text, and what decoding the text gives
pub fn nat<T: Nat>(m: &M) -> M {
    let x = T::from_m(m);
    let js = x.to_json();
    let mut vs = vec![doc_of(&js)];
    let text = json::encode(&x);
    vs.push(match Json::parse(&text) { Ok(j) => doc_of(&j), Err(e) => fail_e(&e) });
    for r in x.refs() { vs.push(doc_of(&r)); }
    if vs.iter().any(|v| v.write().contains("\"nf\"")) { vs.truncate(1); }
    vs.push(doc_of(&x.to_json()));
    // as an element and as a member: the impls are used through other impls
    let mut host = Json::Array(vec![]);
    host.push(T::from_m(m)).unwrap();
    vs.push(doc_of(&host[0]));
    let mut host = json::object! {};
    host.insert("k", T::from_m(m)).unwrap();
    vs.push(doc_of(&host["k"]));
    host.append("k", T::from_m(m)).unwrap();
    vs.push(doc_of(&host["k"]));
    host.set("p.#1", T::from_m(m)).unwrap();
    vs.push(doc_of(&host["p"][1]));
    host.update("q", T::from_m(m)).unwrap();
    vs.push(doc_of(&host["q"]));
    let v = agree(vs);
    o(vec![("v", v), ("s", t(&text)), ("back", agree(vec![res(json::decode::<T>(&text)), res(js.convert::<T>())]))])
}
pub fn one_get<T: Nat>(txt: &str, path: &str) -> M { res(json::get::<T>(txt, path)) }
pub fn one_set<T: Nat>(txt: &str, path: &str, x: &M) -> M {
    match json::set(txt, path, T::from_m(x)) {
        Ok(r) => o(vec![("ok", M::B(true)), ("s", t(&r))]),
        Err(e) => fail_e(&e),
    }
}
pub fn decode<T: Nat>(txt: &str) -> M { res(json::decode::<T>(txt)) }

pub struct Entry {
    pub ty: M,
    pub conv: fn(&M) -> M,
    pub nat: fn(&M) -> M,
    pub one_get: fn(&str, &str) -> M,
    pub one_set: fn(&str, &str, &M) -> M,
    pub decode: fn(&str) -> M,
}
pub fn entry<T: Nat>() -> (String, Entry) {
    (T::ty().write(), Entry { ty: T::ty(), conv: conv::<T>, nat: nat::<T>, one_get: one_get::<T>, one_set: one_set::<T>, decode: decode::<T> })
}
/// a type that only encodes: the value, its text, and the encodings through a reference
pub fn enc_of<T: ToJson>(x: &T) -> M {
    let js = x.to_json();
    let text = json::encode(x);
    let mut vs = vec![doc_of(&js), doc_of(&x.to_json())];
    vs.push(match Json::parse(&text) { Ok(j) => doc_of(&j), Err(e) => fail_e(&e) });
    o(vec![("v", agree(vs)), ("s", t(&text))])
}
pub fn no_conv(_: &M) -> M { panic!("harness: no decoding") }
pub fn no_get(_: &str, _: &str) -> M { panic!("harness: no decoding") }
pub fn no_set(_: &str, _: &str, _: &M) -> M { panic!("harness: no decoding") }
pub fn no_decode(_: &str) -> M { panic!("harness: no decoding") }

macro_rules! reg { ( $($ty:ty),* $(,)? ) => { vec![ $( entry::<$ty>() ),* ] } }

pub fn registry() -> HashMap<String, Entry> {
    let v = reg![
        String, bool, Json, f64, f32,
        u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize,
        Option<String>, Option<bool>, Option<u8>, Option<i64>, Option<f64>, Option<f32>, Option<Json>,
        Vec<String>, Vec<bool>, Vec<u8>, Vec<i32>, Vec<u64>, Vec<f64>, Vec<Json>,
        Option<Vec<i32>>, Vec<Option<i32>>, Vec<Option<String>>, Vec<Vec<u8>>, Vec<Vec<Vec<bool>>>,
        Option<Vec<Option<bool>>>,
        Vec<(String, String)>, Vec<(String, i32)>, Vec<(String, Json)>, Vec<(i32, String)>, Vec<(u8, bool)>, Vec<(bool, u8)>,
        Vec<(String, Option<i32>)>, Vec<(String, Vec<i32>)>, Vec<(String, Vec<(String, u8)>)>, Option<Vec<(String, u8)>>,
        Vec<Vec<(String, u8)>>,
        HashMap<String, String>, HashMap<String, i32>, HashMap<String, Json>, HashMap<i32, String>, HashMap<u8, bool>,
        HashMap<bool, u8>, HashMap<String, Option<bool>>, HashMap<String, Vec<u8>>, HashMap<String, HashMap<String, i32>>,
        HashMap<String, Vec<(String, bool)>>, Vec<HashMap<String, u8>>, Option<HashMap<String, u8>>, HashMap<i64, f64>,
        Vec<(i64, HashMap<String, Option<u8>>)>,
    ];
    v.into_iter().collect()
}
