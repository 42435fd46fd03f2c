//! Just enough JSON
use std::collections::BTreeMap;

pub fn s(x: &str) -> String {
    let mut o = String::with_capacity(x.len() + 2);
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn num(&self) -> f64 {
        match self {
            J::Num(n) => *n,
            _ => 0.0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn text(&self) -> String {
        match self {
            J::Null => "null".into(),
            J::Bool(b) => b.to_string(),
            J::Num(n) => format!("{n}"),
            J::Str(x) => s(x),
            J::Arr(a) => format!("[{}]", a.iter().map(J::text).collect::<Vec<_>>().join(", ")),
            J::Obj(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", s(k), v.text())).collect::<Vec<_>>().join(", ")),
        }
    }
}

pub fn parse(t: &str) -> Option<J> {
    let b = t.as_bytes();
    let mut i = 0;
    let v = val(t, b, &mut i)?;
    Some(v)
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn val(t: &str, b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if b.get(*i)? == &b'}' {
                    *i += 1;
                    return Some(J::Obj(m));
                }
                if b[*i] == b',' {
                    *i += 1;
                    ws(b, i);
                }
                let J::Str(k) = val(t, b, i)? else { return None };
                ws(b, i);
                if b.get(*i)? != &b':' {
                    return None;
                }
                *i += 1;
                m.insert(k, val(t, b, i)?);
            }
        }
        b'[' => {
            *i += 1;
            let mut a = Vec::new();
            loop {
                ws(b, i);
                match b.get(*i)? {
                    b']' => {
                        *i += 1;
                        return Some(J::Arr(a));
                    }
                    b',' => *i += 1,
                    _ => a.push(val(t, b, i)?),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut o = String::new();
            loop {
                match *b.get(*i)? {
                    b'"' => {
                        *i += 1;
                        return Some(J::Str(o));
                    }
                    b'\\' => {
                        *i += 1;
                        match *b.get(*i)? {
                            b'n' => o.push('\n'),
                            b't' => o.push('\t'),
                            b'r' => o.push('\r'),
                            b'u' => {
                                let mut c = u32::from_str_radix(t.get(*i + 1..*i + 5)?, 16).ok()?;
                                *i += 4;
                                if (0xd800..0xdc00).contains(&c) {
                                    let d = u32::from_str_radix(t.get(*i + 3..*i + 7)?, 16).ok()?;
                                    c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
                                    *i += 6;
                                }
                                o.push(char::from_u32(c)?);
                            }
                            c => o.push(c as char),
                        }
                        *i += 1;
                    }
                    _ => {
                        let c = t[*i..].chars().next()?;
                        o.push(c);
                        *i += c.len_utf8();
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let a = *i;
            while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *i += 1;
            }
            t[a..*i].parse().ok().map(J::Num)
        }
    }
}
