// A minimal JSON reader and writer of the harness itself: vectors and observations.
// Independent of the crate under test.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    O(BTreeMap<String, M>),
    A(Vec<M>),
    S(String),
    N(i64),
    B(bool),
}

impl M {
    pub fn get(&self, k: &str) -> &M {
        self.opt(k).unwrap_or_else(|| panic!("harness: no field {} in {}", k, self.write()))
    }
    pub fn opt(&self, k: &str) -> Option<&M> {
        match self { M::O(m) => m.get(k), _ => panic!("harness: not an object: {}", self.write()) }
    }
    pub fn arr(&self) -> &Vec<M> {
        match self { M::A(v) => v, _ => panic!("harness: not an array: {}", self.write()) }
    }
    pub fn str(&self) -> &str {
        match self { M::S(s) => s, _ => panic!("harness: not a string: {}", self.write()) }
    }
    pub fn int(&self) -> i64 {
        match self { M::N(n) => *n, _ => panic!("harness: not an int: {}", self.write()) }
    }
    pub fn bool(&self) -> bool {
        match self { M::B(b) => *b, _ => panic!("harness: not a bool: {}", self.write()) }
    }
    /// a sequence of code points as text
    pub fn text(&self) -> String {
        self.arr().iter().map(|c| char::from_u32(c.int() as u32).expect("harness: code point")).collect()
    }
    pub fn write(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            M::O(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    M::S(k.clone()).w(o);
                    o.push(':');
                    v.w(o);
                }
                o.push('}');
            }
            M::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.w(o);
                }
                o.push(']');
            }
            M::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            M::N(n) => o.push_str(&n.to_string()),
            M::B(b) => o.push_str(if *b { "true" } else { "false" }),
        }
    }
    pub fn read(s: &str) -> M {
        let b = s.as_bytes();
        let mut p = 0;
        let v = rd(b, &mut p);
        v
    }
}

fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && (b[*p] as char).is_whitespace() { *p += 1; } }

fn rd(b: &[u8], p: &mut usize) -> M {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b[*p] == b'}' { *p += 1; return M::O(m); }
                if b[*p] == b',' { *p += 1; continue; }
                let k = match rd(b, p) { M::S(s) => s, _ => panic!("harness: key") };
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let v = rd(b, p);
                m.insert(k, v);
            }
        }
        b'[' => {
            *p += 1;
            let mut a = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b']' { *p += 1; return M::A(a); }
                if b[*p] == b',' { *p += 1; continue; }
                a.push(rd(b, p));
            }
        }
        b'"' => {
            *p += 1;
            let mut s: Vec<u8> = Vec::new();
            loop {
                match b[*p] {
                    b'"' => { *p += 1; return M::S(String::from_utf8(s).unwrap()); }
                    b'\\' => {
                        *p += 1;
                        match b[*p] {
                            b'n' => s.push(b'\n'), b't' => s.push(b'\t'), b'r' => s.push(b'\r'),
                            b'b' => s.push(8), b'f' => s.push(12),
                            b'u' => {
                                let h = u32::from_str_radix(std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap(), 16).unwrap();
                                *p += 4;
                                let c = if (0xD800..0xDC00).contains(&h) {
                                    let l = u32::from_str_radix(std::str::from_utf8(&b[*p + 3..*p + 7]).unwrap(), 16).unwrap();
                                    *p += 6;
                                    0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)
                                } else { h };
                                let mut t = [0u8; 4];
                                s.extend_from_slice(char::from_u32(c).unwrap().encode_utf8(&mut t).as_bytes());
                            }
                            c => s.push(c),
                        }
                        *p += 1;
                    }
                    c => { s.push(c); *p += 1; }
                }
            }
        }
        b't' => { *p += 4; M::B(true) }
        b'f' => { *p += 5; M::B(false) }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1; }
            M::N(std::str::from_utf8(&b[st..*p]).unwrap().parse().expect("harness: int"))
        }
    }
}

pub fn o(fields: Vec<(&str, M)>) -> M {
    M::O(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn s(x: &str) -> M { M::S(x.to_string()) }
pub fn t(x: &str) -> M { M::A(x.chars().map(|c| M::N(c as i64)).collect()) }
