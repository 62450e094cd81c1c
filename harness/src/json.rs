//! A small JSON reader: just enough for the case files.
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum Json {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(BTreeMap<String, Json>),
}

impl Json {
    pub fn parse(text: &str) -> Json {
        let b = text.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p);
        ws(b, &mut p);
        assert!(p == b.len(), "trailing characters in JSON at {p}");
        v
    }
    pub fn get(&self, key: &str) -> &Json {
        match self {
            Json::Obj(m) => m.get(key).unwrap_or(&Json::Null),
            _ => &Json::Null,
        }
    }
    pub fn arr(&self) -> &[Json] {
        match self {
            Json::Arr(v) => v,
            _ => panic!("case: array expected, got {self:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            Json::Str(s) => s,
            _ => panic!("case: string expected, got {self:?}"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            Json::Num(n) => *n as i64,
            _ => panic!("case: number expected, got {self:?}"),
        }
    }
    pub fn int_or(&self, key: &str, default: i64) -> i64 {
        match self.get(key) {
            Json::Null => default,
            v => v.int(),
        }
    }
    /// A count; 2 * 10^9 stands for the largest one.
    pub fn usize(&self) -> usize {
        let n = self.int() as usize;
        if n >= 2_000_000_000 {
            usize::MAX
        } else {
            n
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, Json::Bool(true))
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
    pub fn points(&self) -> Vec<Vec<i64>> {
        self.arr().iter().map(|x| x.ints()).collect()
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && matches!(b[*p], b' ' | b'\n' | b'\r' | b'\t') {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> Json {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return Json::Obj(m);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let v = value(b, p);
                m.insert(k, v);
            }
        }
        b'[' => {
            *p += 1;
            let mut a = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return Json::Arr(a);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                a.push(value(b, p));
            }
        }
        b'"' => Json::Str(string(b, p)),
        b't' => {
            *p += 4;
            Json::Bool(true)
        }
        b'f' => {
            *p += 5;
            Json::Bool(false)
        }
        b'n' => {
            *p += 4;
            Json::Null
        }
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *p += 1;
            }
            Json::Num(std::str::from_utf8(&b[s..*p]).unwrap().parse().unwrap())
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"');
    *p += 1;
    let s = *p;
    while b[*p] != b'"' {
        assert!(b[*p] != b'\\', "escapes are not used in case files");
        *p += 1;
    }
    let r = String::from_utf8(b[s..*p].to_vec()).unwrap();
    *p += 1;
    r
}
