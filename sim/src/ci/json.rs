//! Just enough JSON to read what the tools print.
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
}

pub fn parse(s: &str) -> Option<J> {
    let b = s.as_bytes();
    let mut at = 0;
    let v = value(b, &mut at)?;
    space(b, &mut at);
    (at == b.len()).then_some(v)
}

fn space(b: &[u8], at: &mut usize) {
    while b.get(*at).is_some_and(|c| c.is_ascii_whitespace()) {
        *at += 1;
    }
}

fn eat(b: &[u8], at: &mut usize, s: &str) -> Option<()> {
    b[*at..].starts_with(s.as_bytes()).then(|| *at += s.len())
}

fn value(b: &[u8], at: &mut usize) -> Option<J> {
    space(b, at);
    match b.get(*at)? {
        b'n' => eat(b, at, "null").map(|_| J::Null),
        b't' => eat(b, at, "true").map(|_| J::Bool(true)),
        b'f' => eat(b, at, "false").map(|_| J::Bool(false)),
        b'"' => string(b, at).map(J::Str),
        b'[' => {
            *at += 1;
            let mut v = Vec::new();
            space(b, at);
            if eat(b, at, "]").is_some() {
                return Some(J::Arr(v));
            }
            loop {
                v.push(value(b, at)?);
                space(b, at);
                if eat(b, at, "]").is_some() {
                    return Some(J::Arr(v));
                }
                eat(b, at, ",")?;
            }
        }
        b'{' => {
            *at += 1;
            let mut m = BTreeMap::new();
            space(b, at);
            if eat(b, at, "}").is_some() {
                return Some(J::Obj(m));
            }
            loop {
                space(b, at);
                let k = string(b, at)?;
                space(b, at);
                eat(b, at, ":")?;
                m.insert(k, value(b, at)?);
                space(b, at);
                if eat(b, at, "}").is_some() {
                    return Some(J::Obj(m));
                }
                eat(b, at, ",")?;
            }
        }
        _ => {
            let s = *at;
            while b.get(*at).is_some_and(|c| b"+-.0123456789eE".contains(c)) {
                *at += 1;
            }
            std::str::from_utf8(&b[s..*at]).ok()?.parse().ok().map(J::Num)
        }
    }
}

fn string(b: &[u8], at: &mut usize) -> Option<String> {
    eat(b, at, "\"")?;
    let mut o = Vec::new();
    loop {
        let c = *b.get(*at)?;
        *at += 1;
        match c {
            b'"' => return String::from_utf8(o).ok(),
            b'\\' => {
                let e = *b.get(*at)?;
                *at += 1;
                match e {
                    b'n' => o.push(b'\n'),
                    b't' => o.push(b'\t'),
                    b'r' => o.push(b'\r'),
                    b'b' => o.push(8),
                    b'f' => o.push(12),
                    b'u' => {
                        let h = u32::from_str_radix(std::str::from_utf8(b.get(*at..*at + 4)?).ok()?, 16).ok()?;
                        *at += 4;
                        let mut t = [0; 4];
                        o.extend(char::from_u32(h).unwrap_or('?').encode_utf8(&mut t).bytes());
                    }
                    e => o.push(e),
                }
            }
            c => o.push(c),
        }
    }
}
