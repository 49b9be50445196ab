//! Minimal JSON value, writer and parser.
use std::collections::BTreeMap;
#[derive(Clone, Debug)]
pub enum J {
    Null,
    B(bool),
    I(i64),
    N(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn strs<T: AsRef<str>>(x: &[T]) -> J {
        J::A(x.iter().map(|y| J::s(y.as_ref())).collect())
    }
    pub fn map(m: &BTreeMap<String, u64>) -> J {
        J::O(m.iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    pub fn num(&self) -> f64 {
        match self {
            J::I(i) => *i as f64,
            J::N(f) => *f,
            _ => f64::NAN,
        }
    }
    pub fn show(&self, ind: usize, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => out.push_str(&i.to_string()),
            J::N(f) => {
                if f.is_finite() {
                    out.push_str(&format!("{f:?}"))
                } else {
                    out.push_str("null")
                }
            }
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                let flat = v.iter().all(|x| !matches!(x, J::O(_) | J::A(_)));
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(if flat { ", " } else { "," });
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    x.show(ind + 1, out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&" ".repeat(ind + 1));
                    J::s(k.clone()).show(0, out);
                    out.push_str(": ");
                    x.show(ind + 1, out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.show(0, &mut s);
        s.push('\n');
        s
    }
    pub fn parse(t: &str) -> Option<J> {
        let b = t.as_bytes();
        let mut p = 0;
        let r = val(b, &mut p)?;
        ws(b, &mut p);
        if p == b.len() {
            Some(r)
        } else {
            None
        }
    }
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1;
    }
}
fn val(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    return Some(J::O(o));
                }
                if *b.get(*p)? == b',' {
                    *p += 1;
                    continue;
                }
                let J::S(k) = val(b, p)? else { return None };
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                o.push((k, val(b, p)?));
            }
        }
        b'[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                match *b.get(*p)? {
                    b']' => {
                        *p += 1;
                        return Some(J::A(a));
                    }
                    b',' => *p += 1,
                    _ => a.push(val(b, p)?),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut s = vec![];
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'"' => return String::from_utf8(s).ok().map(J::S),
                    b'\\' => {
                        let c = *b.get(*p)?;
                        *p += 1;
                        match c {
                            b'n' => s.push(b'\n'),
                            b't' => s.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                                *p += 4;
                                let ch = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                let mut bf = [0; 4];
                                s.extend(ch.encode_utf8(&mut bf).as_bytes());
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        b't' => {
            *p += 4;
            Some(J::B(true))
        }
        b'f' => {
            *p += 5;
            Some(J::B(false))
        }
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let s = *p;
            while *p < b.len() && b"+-.eE0123456789".contains(&b[*p]) {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).ok()?;
            if let Ok(i) = t.parse::<i64>() {
                return Some(J::I(i));
            }
            t.parse().ok().map(J::N)
        }
    }
}
