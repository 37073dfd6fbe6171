//! A tiny JSON value, writer and reader: enough for evidence and replay files.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    U(u64),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::S(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::S(s)
    }
}
impl From<u64> for J {
    fn from(s: u64) -> J {
        J::U(s)
    }
}
impl From<usize> for J {
    fn from(s: usize) -> J {
        J::U(s as u64)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::B(s)
    }
}
impl From<f64> for J {
    fn from(s: f64) -> J {
        J::F(s)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::A(v.into_iter().map(Into::into).collect())
    }
}
impl From<&BTreeMap<String, u64>> for J {
    fn from(m: &BTreeMap<String, u64>) -> J {
        J::O(m.iter().map(|(k, v)| (k.clone(), J::U(*v))).collect())
    }
}

pub fn obj(fields: Vec<(&str, J)>) -> J {
    J::O(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::S(s) => Some(s),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            J::U(v) => Some(*v),
            J::I(v) => Some(*v as u64),
            J::F(v) => Some(*v as u64),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => &[],
        }
    }
    pub fn fields(&self) -> &[(String, J)] {
        match self {
            J::O(v) => v,
            _ => &[],
        }
    }
    pub fn pretty(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0, true);
        s.push('\n');
        s
    }
    pub fn line(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0, false);
        s
    }
    fn write(&self, o: &mut String, ind: usize, pretty: bool) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => {
                let _ = write!(o, "{b}");
            }
            J::U(v) => {
                let _ = write!(o, "{v}");
            }
            J::I(v) => {
                let _ = write!(o, "{v}");
            }
            J::F(v) => {
                if v.is_finite() {
                    let _ = write!(o, "{v:.3}");
                } else {
                    o.push_str("null");
                }
            }
            J::S(s) => write_str(o, s),
            J::A(v) => {
                o.push('[');
                let simple = v.iter().all(|x| matches!(x, J::U(_) | J::I(_) | J::B(_)));
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if pretty && !simple {
                        nl(o, ind + 1);
                    }
                    x.write(o, ind + 1, pretty);
                }
                if pretty && !simple && !v.is_empty() {
                    nl(o, ind);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if pretty {
                        nl(o, ind + 1);
                    }
                    write_str(o, k);
                    o.push(':');
                    if pretty {
                        o.push(' ');
                    }
                    x.write(o, ind + 1, pretty);
                }
                if pretty && !v.is_empty() {
                    nl(o, ind);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let mut p = P {
            s: s.as_bytes(),
            i: 0,
        };
        let v = p.val()?;
        p.ws();
        if p.i != p.s.len() {
            return Err(format!("trailing data at {}", p.i));
        }
        Ok(v)
    }
}

fn nl(o: &mut String, ind: usize) {
    o.push('\n');
    for _ in 0..ind {
        o.push(' ');
    }
}

fn write_str(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        match self.s.get(self.i) {
            None => Err("eof".into()),
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.s.get(self.i) {
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::O(v));
                        }
                        Some(b',') => {
                            self.i += 1;
                        }
                        Some(b'"') => {
                            let k = self.string()?;
                            self.ws();
                            if self.s.get(self.i) != Some(&b':') {
                                return Err("expected :".into());
                            }
                            self.i += 1;
                            let x = self.val()?;
                            v.push((k, x));
                        }
                        _ => return Err("bad object".into()),
                    }
                }
            }
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    match self.s.get(self.i) {
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::A(v));
                        }
                        Some(b',') => {
                            self.i += 1;
                        }
                        None => return Err("eof".into()),
                        _ => v.push(self.val()?),
                    }
                }
            }
            Some(b'"') => Ok(J::S(self.string()?)),
            Some(b't') => {
                self.i += 4;
                Ok(J::B(true))
            }
            Some(b'f') => {
                self.i += 5;
                Ok(J::B(false))
            }
            Some(b'n') => {
                self.i += 4;
                Ok(J::Null)
            }
            Some(_) => {
                let st = self.i;
                while self.i < self.s.len()
                    && matches!(self.s[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E')
                {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).map_err(|e| e.to_string())?;
                if let Ok(u) = t.parse::<u64>() {
                    return Ok(J::U(u));
                }
                if let Ok(u) = t.parse::<i64>() {
                    return Ok(J::I(u));
                }
                t.parse::<f64>().map(J::F).map_err(|_| format!("bad number {t:?}"))
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out = vec![];
        loop {
            match self.s.get(self.i) {
                None => return Err("eof in string".into()),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(out).map_err(|e| e.to_string());
                }
                Some(b'\\') => {
                    self.i += 1;
                    match self.s.get(self.i) {
                        Some(b'n') => out.push(b'\n'),
                        Some(b'r') => out.push(b'\r'),
                        Some(b't') => out.push(b'\t'),
                        Some(b'u') => {
                            let h = std::str::from_utf8(
                                self.s.get(self.i + 1..self.i + 5).ok_or("eof")?,
                            )
                            .map_err(|e| e.to_string())?;
                            let c = char::from_u32(
                                u32::from_str_radix(h, 16).map_err(|e| e.to_string())?,
                            )
                            .unwrap_or('?');
                            let mut b = [0; 4];
                            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                            self.i += 4;
                        }
                        Some(&c) => out.push(c),
                        None => return Err("eof".into()),
                    }
                    self.i += 1;
                }
                Some(&c) => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
}
