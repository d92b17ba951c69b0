//! Minimal JSON reader/writer (no external crates).
#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        if let J::Obj(o) = self {
            o.iter().find(|(n, _)| n == k).map(|(_, v)| v)
        } else {
            None
        }
    }
    pub fn s(&self) -> &str {
        if let J::Str(s) = self { s } else { panic!("json: string expected, got {:?}", self) }
    }
    pub fn i(&self) -> i64 {
        if let J::Num(n) = self { *n as i64 } else { panic!("json: number expected, got {:?}", self) }
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(a) = self { a } else { panic!("json: array expected") }
    }
    pub fn obj(&self) -> &[(String, J)] {
        if let J::Obj(a) = self { a } else { panic!("json: object expected") }
    }
    pub fn b(&self) -> bool {
        if let J::Bool(b) = self { *b } else { panic!("json: bool expected") }
    }
    pub fn gi(&self, k: &str, d: i64) -> i64 {
        self.get(k).map(|j| j.i()).unwrap_or(d)
    }
    pub fn gs(&self, k: &str, d: &str) -> String {
        self.get(k).map(|j| j.s().to_string()).unwrap_or(d.to_string())
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => {
                if n.fract() == 0.0 && n.abs() < 9e15 {
                    o.push_str(&format!("{}", *n as i64))
                } else {
                    o.push_str(&format!("{}", n))
                }
            }
            J::Str(s) => esc(s, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.write(o)
                }
                o.push(']')
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.write(o)
                }
                o.push('}')
            }
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u))
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    let j = val(b, &mut p);
    ws(b, &mut p);
    assert!(p == b.len(), "json: trailing data");
    j
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1
    }
}
fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::Obj(o);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                o.push((k, val(b, p)));
            }
        }
        b'[' => {
            *p += 1;
            let mut o = vec![];
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::Arr(o);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                o.push(val(b, p));
            }
        }
        b'"' => J::Str(string(b, p)),
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1
            }
            J::Num(std::str::from_utf8(&b[st..*p]).unwrap().parse().unwrap())
        }
    }
}
fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"');
    *p += 1;
    let mut out: Vec<u16> = vec![];
    let mut bytes: Vec<u8> = vec![];
    let mut res = String::new();
    fn flush16(o: &mut Vec<u16>, r: &mut String) {
        if !o.is_empty() {
            r.push_str(&String::from_utf16_lossy(o));
            o.clear()
        }
    }
    loop {
        let c = b[*p];
        *p += 1;
        if c == b'\\' {
            if !bytes.is_empty() {
                res.push_str(std::str::from_utf8(&bytes).unwrap());
                bytes.clear()
            }
            let e = b[*p];
            *p += 1;
            if e == b'u' {
                let h = u16::from_str_radix(std::str::from_utf8(&b[*p..*p + 4]).unwrap(), 16).unwrap();
                *p += 4;
                out.push(h);
                continue;
            }
            flush16(&mut out, &mut res);
            res.push(match e {
                b'n' => '\n',
                b't' => '\t',
                b'r' => '\r',
                b'b' => '\u{8}',
                b'f' => '\u{c}',
                x => x as char,
            });
        } else {
            flush16(&mut out, &mut res);
            if c == b'"' {
                if !bytes.is_empty() {
                    res.push_str(std::str::from_utf8(&bytes).unwrap());
                }
                return res;
            }
            bytes.push(c);
        }
    }
}
