//! Minimal JSON reader (integers only) and writer; the harness has no third-party dependencies.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    pub fn parse(s: &'a str) -> J {
        let mut p = P { s: s.as_bytes(), i: 0 };
        p.val()
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }
    fn val(&mut self) -> J {
        self.ws();
        match self.s[self.i] {
            b'{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                loop {
                    self.ws();
                    if self.s[self.i] == b'}' {
                        self.i += 1;
                        return J::Obj(m);
                    }
                    if self.s[self.i] == b',' {
                        self.i += 1;
                        continue;
                    }
                    let k = match self.val() {
                        J::Str(s) => s,
                        _ => panic!("bad key"),
                    };
                    self.ws();
                    assert_eq!(self.s[self.i], b':');
                    self.i += 1;
                    let v = self.val();
                    m.insert(k, v);
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = vec![];
                loop {
                    self.ws();
                    if self.s[self.i] == b']' {
                        self.i += 1;
                        return J::Arr(a);
                    }
                    if self.s[self.i] == b',' {
                        self.i += 1;
                        continue;
                    }
                    a.push(self.val());
                }
            }
            b'"' => {
                self.i += 1;
                let mut r = String::new();
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        self.i += 1;
                    }
                    r.push(self.s[self.i] as char);
                    self.i += 1;
                }
                self.i += 1;
                J::Str(r)
            }
            b't' => {
                self.i += 4;
                J::Bool(true)
            }
            b'f' => {
                self.i += 5;
                J::Bool(false)
            }
            b'n' => {
                self.i += 4;
                J::Null
            }
            _ => {
                let st = self.i;
                while self.i < self.s.len() && matches!(self.s[self.i], b'-' | b'0'..=b'9') {
                    self.i += 1;
                }
                J::Int(std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap())
            }
        }
    }
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k).filter(|v| !matches!(v, J::Null)),
            _ => None,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k).is_some()
    }
    pub fn int(&self, k: &str, d: i64) -> i64 {
        match self.get(k) {
            Some(J::Int(i)) => *i,
            Some(J::Bool(b)) => *b as i64,
            _ => d,
        }
    }
    pub fn boolean(&self, k: &str, d: bool) -> bool {
        match self.get(k) {
            Some(J::Bool(b)) => *b,
            Some(J::Int(i)) => *i != 0,
            _ => d,
        }
    }
    pub fn s(&self, k: &str) -> &str {
        match self.get(k) {
            Some(J::Str(s)) => s,
            _ => "",
        }
    }
    pub fn arr(&self, k: &str) -> &[J] {
        match self.get(k) {
            Some(J::Arr(a)) => a,
            _ => &[],
        }
    }
    pub fn ints(&self, k: &str) -> Vec<i64> {
        self.arr(k).iter().map(|v| v.as_int()).collect()
    }
    pub fn as_int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("int expected"),
        }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => write!(o, "{}", b).unwrap(),
            J::Int(i) => write!(o, "{}", i).unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' | '\\' => {
                            o.push('\\');
                            o.push(c)
                        }
                        c if (c as u32) < 32 || (c as u32) > 126 => o.push('?'),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    v.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
}

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn st(s: &str) -> J {
    J::Str(s.to_string())
}
pub fn bytes(b: &[u8]) -> J {
    J::Arr(b.iter().map(|&x| J::Int(x as i64)).collect())
}
