//! Independent JSON reader (RFC 8259) that keeps byte spans: the oracle for C17.
#[derive(Clone, Debug, PartialEq)]
pub enum JV {
    Null,
    Bool(bool),
    /// the literal's text
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<((String, (usize, usize)), J)>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct J {
    pub v: JV,
    pub span: (usize, usize),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    Invalid(&'static str),
    /// legal JSON, or a documented tolerance, on which readers may differ
    Open(&'static str),
}
struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    open: Option<&'static str>,
}
pub fn parse(s: &str) -> Result<J, Bad> {
    let mut p = P { s, b: s.as_bytes(), i: 0, open: None };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != s.len() {
        return Err(Bad::Invalid("text after the value"));
    }
    match p.open {
        Some(o) => Err(Bad::Open(o)),
        None => Ok(v),
    }
}
type R<T> = Result<T, Bad>;
impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1
        }
    }
    fn value(&mut self, depth: usize) -> R<J> {
        let start = self.i;
        let v = match self.b.get(self.i) {
            None => return Err(Bad::Invalid("end of text")),
            Some(b'"') => JV::Str(self.string()?),
            Some(b'[') => {
                if depth >= 100 {
                    self.open = Some("deep nesting");
                }
                if depth >= 2000 {
                    return Err(Bad::Open("deep nesting"));
                }
                self.i += 1;
                let mut items = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                } else {
                    loop {
                        items.push(self.value(depth + 1)?);
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => {
                                self.i += 1;
                                self.ws();
                                if self.b.get(self.i) == Some(&b']') {
                                    self.open = Some("trailing comma");
                                    self.i += 1;
                                    break;
                                }
                            }
                            Some(b']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err(Bad::Invalid("array")),
                        }
                    }
                }
                JV::Arr(items)
            }
            Some(b'{') => {
                if depth >= 100 {
                    self.open = Some("deep nesting");
                }
                if depth >= 2000 {
                    return Err(Bad::Open("deep nesting"));
                }
                self.i += 1;
                let mut items: Vec<((String, (usize, usize)), J)> = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                } else {
                    loop {
                        let ks = self.i;
                        if self.b.get(ks) != Some(&b'"') {
                            return Err(Bad::Invalid("object key"));
                        }
                        let k = self.string()?;
                        let kspan = (ks, self.i);
                        self.ws();
                        if self.b.get(self.i) != Some(&b':') {
                            return Err(Bad::Invalid("colon"));
                        }
                        self.i += 1;
                        self.ws();
                        let v = self.value(depth + 1)?;
                        if items.iter().any(|(x, _)| x.0 == k) {
                            self.open = Some("duplicate key");
                        }
                        items.push(((k, kspan), v));
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => {
                                self.i += 1;
                                self.ws();
                                if self.b.get(self.i) == Some(&b'}') {
                                    self.open = Some("trailing comma");
                                    self.i += 1;
                                    break;
                                }
                            }
                            Some(b'}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return Err(Bad::Invalid("object")),
                        }
                    }
                }
                JV::Obj(items)
            }
            Some(b'-' | b'0'..=b'9') => {
                let d = |p: &mut Self| {
                    let s = p.i;
                    while p.b.get(p.i).is_some_and(u8::is_ascii_digit) {
                        p.i += 1
                    }
                    p.i > s
                };
                if self.b[self.i] == b'-' {
                    self.i += 1;
                }
                if self.b.get(self.i) == Some(&b'0') {
                    self.i += 1;
                } else if !d(self) {
                    return Err(Bad::Invalid("number"));
                }
                if self.b.get(self.i) == Some(&b'.') {
                    self.i += 1;
                    if !d(self) {
                        return Err(Bad::Invalid("fraction"));
                    }
                }
                if matches!(self.b.get(self.i), Some(b'e' | b'E')) {
                    self.i += 1;
                    if matches!(self.b.get(self.i), Some(b'+' | b'-')) {
                        self.i += 1;
                    }
                    if !d(self) {
                        return Err(Bad::Invalid("exponent"));
                    }
                }
                JV::Num(self.s[start..self.i].into())
            }
            _ => {
                let rest = &self.s[self.i..];
                if rest.starts_with("true") {
                    self.i += 4;
                    JV::Bool(true)
                } else if rest.starts_with("false") {
                    self.i += 5;
                    JV::Bool(false)
                } else if rest.starts_with("null") {
                    self.i += 4;
                    JV::Null
                } else {
                    return Err(Bad::Invalid("value"));
                }
            }
        };
        Ok(J { v, span: (start, self.i) })
    }
    fn hex4(&mut self) -> R<u32> {
        let h = self.b.get(self.i..self.i + 4).ok_or(Bad::Invalid("unicode escape"))?;
        if !h.iter().all(u8::is_ascii_hexdigit) {
            return Err(Bad::Invalid("unicode escape"));
        }
        self.i += 4;
        Ok(u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap())
    }
    fn string(&mut self) -> R<String> {
        self.i += 1;
        let mut out = String::new();
        let mut lone = false;
        loop {
            let Some(c) = self.s[self.i..].chars().next() else { return Err(Bad::Invalid("unterminated string")) };
            self.i += c.len_utf8();
            match c {
                '"' => break,
                '\0'..='\u{1f}' => return Err(Bad::Invalid("control character")),
                '\\' => {
                    let e = self.b.get(self.i).copied().ok_or(Bad::Invalid("escape"))?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e as char),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let u = self.hex4()?;
                            match u {
                                0xD800..=0xDBFF => {
                                    let at = self.i;
                                    if self.b.get(at) == Some(&b'\\') && self.b.get(at + 1) == Some(&b'u') {
                                        self.i += 2;
                                        let l = self.hex4()?;
                                        if (0xDC00..=0xDFFF).contains(&l) {
                                            out.push(char::from_u32(0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00)).unwrap());
                                        } else {
                                            lone = true;
                                            self.i = at;
                                        }
                                    } else {
                                        lone = true;
                                    }
                                }
                                0xDC00..=0xDFFF => lone = true,
                                _ => out.push(char::from_u32(u).unwrap()),
                            }
                        }
                        _ => return Err(Bad::Invalid("escape")),
                    }
                }
                c => out.push(c),
            }
        }
        if lone {
            self.open = Some("lone surrogate");
        }
        Ok(out)
    }
}
