//! The little JSON that replay and evidence files need.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// the digits as written
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl From<u64> for J {
    fn from(x: u64) -> J {
        J::Num(x.to_string())
    }
}
impl From<usize> for J {
    fn from(x: usize) -> J {
        J::Num(x.to_string())
    }
}
impl From<u32> for J {
    fn from(x: u32) -> J {
        J::Num(x.to_string())
    }
}
impl From<f64> for J {
    fn from(x: f64) -> J {
        if x.is_finite() {
            J::Num(format!("{:?}", x))
        } else {
            J::Str(format!("{:?}", x))
        }
    }
}
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::Bool(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::Str(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::Str(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::Arr(x.into_iter().map(|e| e.into()).collect())
    }
}
pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::Num(s) => s.parse().unwrap_or_else(|_| s.parse::<f64>().unwrap_or(0.0) as u64),
            J::Bool(b) => *b as u64,
            _ => 0,
        }
    }
    pub fn f(&self) -> f64 {
        match self {
            J::Num(s) | J::Str(s) => s.parse().unwrap_or(f64::NAN),
            _ => f64::NAN,
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    fn flat(&self) -> bool {
        match self {
            J::Arr(v) => v.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_))),
            J::Obj(_) => false,
            _ => true,
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn line(&self) -> String {
        let mut s = String::new();
        self.wl(&mut s);
        s
    }
    fn wl(&self, o: &mut String) {
        match self {
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.wl(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).wl(o);
                    o.push(':');
                    x.wl(o);
                }
                o.push('}');
            }
            _ => self.w(o, 0),
        }
    }
    fn w(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(s) => o.push_str(s),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) if self.flat() => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.w(o, 0);
                }
                o.push(']');
            }
            J::Arr(v) => {
                o.push_str("[\n");
                for (i, x) in v.iter().enumerate() {
                    o.push_str(&" ".repeat(ind + 1));
                    x.w(o, ind + 1);
                    if i + 1 < v.len() {
                        o.push(',');
                    }
                    o.push('\n');
                }
                o.push_str(&" ".repeat(ind));
                o.push(']');
            }
            J::Obj(v) => {
                o.push_str("{\n");
                for (i, (k, x)) in v.iter().enumerate() {
                    o.push_str(&" ".repeat(ind + 1));
                    J::Str(k.clone()).w(o, 0);
                    o.push_str(": ");
                    x.w(o, ind + 1);
                    if i + 1 < v.len() {
                        o.push(',');
                    }
                    o.push('\n');
                }
                o.push_str(&" ".repeat(ind));
                o.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> Option<J> {
        let b = t.as_bytes();
        let mut i = 0;
        let r = p(b, &mut i)?;
        ws(b, &mut i);
        if i == b.len() {
            Some(r)
        } else {
            None
        }
    }
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn p(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'n' => {
            *i += 4;
            Some(J::Null)
        }
        b't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        b'"' => {
            *i += 1;
            let mut s = vec![];
            loop {
                let c = *b.get(*i)?;
                *i += 1;
                match c {
                    b'"' => return Some(J::Str(String::from_utf8(s).ok()?)),
                    b'\\' => {
                        let d = *b.get(*i)?;
                        *i += 1;
                        match d {
                            b'n' => s.push(b'\n'),
                            b't' => s.push(b'\t'),
                            b'u' => {
                                let h = u32::from_str_radix(std::str::from_utf8(b.get(*i..*i + 4)?).ok()?, 16).ok()?;
                                *i += 4;
                                s.extend(char::from_u32(h)?.to_string().bytes());
                            }
                            x => s.push(x),
                        }
                    }
                    x => s.push(x),
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if *b.get(*i)? == b']' {
                    *i += 1;
                    return Some(J::Arr(v));
                }
                v.push(p(b, i)?);
                ws(b, i);
                if *b.get(*i)? == b',' {
                    *i += 1;
                }
            }
        }
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if *b.get(*i)? == b'}' {
                    *i += 1;
                    return Some(J::Obj(v));
                }
                let k = match p(b, i)? {
                    J::Str(s) => s,
                    _ => return None,
                };
                ws(b, i);
                if *b.get(*i)? != b':' {
                    return None;
                }
                *i += 1;
                v.push((k, p(b, i)?));
                ws(b, i);
                if *b.get(*i)? == b',' {
                    *i += 1;
                }
            }
        }
        _ => {
            let s = *i;
            while *i < b.len() && !b",]} \n\t\r".contains(&b[*i]) {
                *i += 1;
            }
            if s == *i {
                return None;
            }
            Some(J::Num(std::str::from_utf8(&b[s..*i]).ok()?.to_string()))
        }
    }
}
