//! A small JSON reader for the tables the specification exports.
#[derive(Debug, Clone)]
pub enum J {
    Num(i64),
    Str(String),
    Bool(bool),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn n(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => panic!("number expected"),
        }
    }
    pub fn a(&self) -> &Vec<J> {
        match self {
            J::Arr(v) => v,
            _ => panic!("array expected"),
        }
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => &v.iter().find(|x| x.0 == k).unwrap_or_else(|| panic!("no key {}", k)).1,
            _ => panic!("object expected"),
        }
    }
}
pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    let v = value(b, &mut p);
    v
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1;
    }
}
fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::Arr(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(value(b, p));
            }
        }
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::Obj(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = match value(b, p) {
                    J::Str(s) => s,
                    _ => panic!("key"),
                };
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                v.push((k, value(b, p)));
            }
        }
        b'"' => {
            *p += 1;
            let st = *p;
            while b[*p] != b'"' {
                *p += 1;
            }
            let s = String::from_utf8_lossy(&b[st..*p]).to_string();
            *p += 1;
            J::Str(s)
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            assert!(*p > st, "bad json at {}", st);
            J::Num(std::str::from_utf8(&b[st..*p]).unwrap().parse().unwrap())
        }
    }
}
