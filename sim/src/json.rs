//! Minimal JSON value, writer and reader (replay and evidence files).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn s(v: &str) -> J {
        J::Str(v.to_string())
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect())
    }
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(v) = self {
            for (n, x) in v {
                if n == k {
                    return x;
                }
            }
        }
        &J::Null
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(v) => *v,
            J::Num(v) => *v as i64,
            _ => 0,
        }
    }
    pub fn str(&self) -> &str {
        if let J::Str(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(v) = self {
            v
        } else {
            &[]
        }
    }
    pub fn write(&self, out: &mut String, ind: usize) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(v) => out.push_str(&v.to_string()),
            J::Num(v) => out.push_str(&if v.is_finite() { format!("{v}") } else { "0".into() }),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                let flat = v.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_) | J::Str(_)));
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    x.write(out, ind + 1);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&" ".repeat(ind + 1));
                    J::Str(k.clone()).write(out, 0);
                    out.push_str(": ");
                    x.write(out, ind + 1);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn parse(t: &str) -> Option<J> {
        let b = t.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        Some(v)
    }
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}
fn val(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        b't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'"' => Some(J::Str(string(b, p)?)),
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b']' {
                    *p += 1;
                    return Some(J::Arr(v));
                }
                if b[*p] == b',' {
                    *p += 1;
                }
                v.push(val(b, p)?);
            }
        }
        b'{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if *b.get(*p)? == b'}' {
                    *p += 1;
                    return Some(J::Obj(v));
                }
                if b[*p] == b',' {
                    *p += 1;
                    ws(b, p);
                }
                let k = string(b, p)?;
                ws(b, p);
                if *b.get(*p)? != b':' {
                    return None;
                }
                *p += 1;
                v.push((k, val(b, p)?));
            }
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p].is_ascii_alphanumeric() || b"+-.".contains(&b[*p])) {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).ok()?;
            if let Ok(i) = t.parse::<i64>() {
                Some(J::Int(i))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}
fn string(b: &[u8], p: &mut usize) -> Option<String> {
    if *b.get(*p)? != b'"' {
        return None;
    }
    *p += 1;
    let mut out = vec![];
    loop {
        match *b.get(*p)? {
            b'"' => {
                *p += 1;
                return String::from_utf8(out).ok();
            }
            b'\\' => {
                *p += 1;
                match *b.get(*p)? {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'u' => {
                        let h = std::str::from_utf8(b.get(*p + 1..*p + 5)?).ok()?;
                        let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                        let mut buf = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                        *p += 4;
                    }
                    c => out.push(c),
                }
                *p += 1;
            }
            c => {
                out.push(c);
                *p += 1;
            }
        }
    }
}
