//! A small JSON value, parser and printer (integers, strings, arrays, objects,
//! booleans), enough for the records exchanged with TLC.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    B(bool),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(v: &str) -> J {
    J::S(v.to_string())
}
pub fn bytes(v: &[u8]) -> J {
    J::A(v.iter().map(|b| J::I(*b as i64)).collect())
}
pub fn pair(v: u32) -> J {
    J::A(vec![J::I((v >> 16) as i64), J::I((v & 0xffff) as i64)])
}
#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::O(vec![$(($k.to_string(), $v)),*]) };
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| panic!("harness: no key {} in {}", k, self.text()))
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::O(o) = self {
            o.retain(|x| x.0 != k);
            o.push((k.to_string(), v));
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(v) => *v,
            J::B(b) => *b as i64,
            _ => panic!("harness: not an integer: {}", self.text()),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(v) => v,
            _ => panic!("harness: not a string: {}", self.text()),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("harness: not an array: {}", self.text()),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.int() as u8).collect()
    }
    pub fn u32(&self) -> u32 {
        let a = self.arr();
        ((a[0].int() as u32) << 16) | a[1].int() as u32
    }
    pub fn text(&self) -> String {
        let mut out = String::new();
        self.write(&mut out);
        out
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::I(v) => {
                let _ = write!(out, "{}", v);
            }
            J::B(v) => out.push_str(if *v { "true" } else { "false" }),
            J::S(v) => {
                out.push('"');
                for c in v.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 32 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let _ = write!(out, "\"{}\":", k);
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> J {
        let b = t.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p);
        ws(b, &mut p);
        assert!(p == b.len(), "harness: trailing JSON at {} in {}", p, t);
        v
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::O(o);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = match value(b, p) {
                    J::S(k) => k,
                    _ => panic!("harness: bad JSON key"),
                };
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let v = value(b, p);
                o.push((k, v));
            }
        }
        b'[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                match b[*p] {
                    b']' => {
                        *p += 1;
                        return J::A(a);
                    }
                    b',' => *p += 1,
                    _ => a.push(value(b, p)),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut o = vec![];
            loop {
                match b[*p] {
                    b'"' => {
                        *p += 1;
                        return J::S(String::from_utf8(o).unwrap());
                    }
                    b'\\' => {
                        *p += 1;
                        match b[*p] {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                                o.push(u32::from_str_radix(h, 16).unwrap() as u8);
                                *p += 4;
                            }
                            c => o.push(c),
                        }
                        *p += 1;
                    }
                    c => {
                        o.push(c);
                        *p += 1;
                    }
                }
            }
        }
        b't' => {
            *p += 4;
            J::B(true)
        }
        b'f' => {
            *p += 5;
            J::B(false)
        }
        _ => {
            let st = *p;
            if b[*p] == b'-' {
                *p += 1;
            }
            while *p < b.len() && b[*p].is_ascii_digit() {
                *p += 1;
            }
            J::I(std::str::from_utf8(&b[st..*p]).unwrap().parse().expect("harness: bad JSON number"))
        }
    }
}
