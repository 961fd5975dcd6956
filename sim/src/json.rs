//! A minimal JSON value: the evidence and replay files are small and their shape is ours
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn u(x: u64) -> J {
        J::Int(x as i128)
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn str(&self) -> String {
        match self {
            J::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn int(&self) -> u64 {
        match self {
            J::Int(x) => *x as u64,
            J::Num(x) => *x as u64,
            _ => 0,
        }
    }
    pub fn arr(&self) -> Vec<J> {
        match self {
            J::Arr(v) => v.clone(),
            _ => vec![],
        }
    }
    pub fn write(&self, out: &mut String, ind: usize) {
        let pad = |n: usize| "  ".repeat(n);
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(x) => out.push_str(&x.to_string()),
            J::Num(x) => out.push_str(&if x.is_finite() { format!("{:.3}", x) } else { "0".into() }),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                let flat = v.iter().all(|x| matches!(x, J::Int(_) | J::Num(_) | J::Bool(_) | J::Null));
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&pad(ind + 1));
                    } else if i > 0 {
                        out.push(' ');
                    }
                    x.write(out, ind + 1);
                }
                if !flat && !v.is_empty() {
                    out.push('\n');
                    out.push_str(&pad(ind));
                }
                out.push(']');
            }
            J::Obj(m) => {
                out.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&pad(ind + 1));
                    J::s(k.as_str()).write(out, ind + 1);
                    out.push_str(": ");
                    x.write(out, ind + 1);
                }
                if !m.is_empty() {
                    out.push('\n');
                    out.push_str(&pad(ind));
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn parse(s: &str) -> Option<J> {
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        let r = val(&b, &mut i)?;
        Some(r)
    }
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn val(b: &[char], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        '{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if *b.get(*i)? == '}' {
                    *i += 1;
                    return Some(J::Obj(m));
                }
                if *b.get(*i)? == ',' {
                    *i += 1;
                    continue;
                }
                let k = match val(b, i)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                ws(b, i);
                if *b.get(*i)? != ':' {
                    return None;
                }
                *i += 1;
                m.insert(k, val(b, i)?);
            }
        }
        '[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if *b.get(*i)? == ']' {
                    *i += 1;
                    return Some(J::Arr(v));
                }
                if *b.get(*i)? == ',' {
                    *i += 1;
                    continue;
                }
                v.push(val(b, i)?);
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let c = *b.get(*i)?;
                *i += 1;
                match c {
                    '"' => return Some(J::Str(s)),
                    '\\' => {
                        let e = *b.get(*i)?;
                        *i += 1;
                        match e {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            'u' => {
                                let h: String = b.get(*i..*i + 4)?.iter().collect();
                                *i += 4;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            e => s.push(e),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let a = *i;
            while *i < b.len() && "+-.eE0123456789".contains(b[*i]) {
                *i += 1;
            }
            let t: String = b[a..*i].iter().collect();
            t.parse::<i128>().map(J::Int).ok().or_else(|| t.parse::<f64>().map(J::Num).ok())
        }
    }
}
