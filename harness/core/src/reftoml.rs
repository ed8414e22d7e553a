//! Independent reference parser for TOML v1.0.0 and v1.1.0, written from the specification.
//! Besides the value tree it yields the list of lexical tokens with byte spans.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ver {
    V10,
    V11,
}
impl Ver {
    pub fn tombi(self) -> tombi_toml_version::TomlVersion {
        match self {
            Ver::V10 => tombi_toml_version::TomlVersion::V1_0_0,
            Ver::V11 => tombi_toml_version::TomlVersion::V1_1_0,
        }
    }
    pub fn text(self) -> &'static str {
        match self {
            Ver::V10 => "v1.0.0",
            Ver::V11 => "v1.1.0",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dt {
    pub date: Option<(u16, u8, u8)>,
    /// hour, minute, second, nanoseconds (truncated)
    pub time: Option<(u8, u8, u8, u32)>,
    /// offset in minutes; Z is Some(0)
    pub offset: Option<i16>,
}
#[derive(Clone, Debug)]
pub enum V {
    Str(String),
    Int(i64),
    Float(f64),
    Bool(bool),
    Dt(Dt),
    Arr(Vec<V>),
    Tbl(Tbl),
}
pub type Tbl = Vec<(String, V)>;

impl V {
    pub fn kind(&self) -> &'static str {
        match self {
            V::Str(_) => "string",
            V::Int(_) => "integer",
            V::Float(_) => "float",
            V::Bool(_) => "boolean",
            V::Dt(d) => match (d.date.is_some(), d.time.is_some(), d.offset.is_some()) {
                (true, true, true) => "offset-date-time",
                (true, true, false) => "local-date-time",
                (true, false, _) => "local-date",
                _ => "local-time",
            },
            V::Arr(_) => "array",
            V::Tbl(_) => "table",
        }
    }
}
fn norm_nl(s: &str) -> String {
    s.replace("\r\n", "\n")
}
/// Describes the first difference, or None when equal. With `ordered`, table key order counts.
pub fn diff(a: &V, b: &V, ordered: bool, path: &str) -> Option<String> {
    match (a, b) {
        (V::Str(x), V::Str(y)) if norm_nl(x) == norm_nl(y) => None,
        (V::Int(x), V::Int(y)) if x == y => None,
        (V::Float(x), V::Float(y)) if (x.is_nan() && y.is_nan()) || x.to_bits() == y.to_bits() => None,
        (V::Bool(x), V::Bool(y)) if x == y => None,
        (V::Dt(x), V::Dt(y)) if x == y => None,
        (V::Arr(x), V::Arr(y)) => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if let Some(d) = diff(p, q, ordered, &format!("{path}[{i}]")) {
                    return Some(d);
                }
            }
            (x.len() != y.len()).then(|| format!("{path}: array lengths {} and {}", x.len(), y.len()))
        }
        (V::Tbl(x), V::Tbl(y)) => diff_tbl(x, y, ordered, path),
        _ => Some(format!("{path}: {a:?} vs {b:?}")),
    }
}
pub fn diff_tbl(x: &Tbl, y: &Tbl, ordered: bool, path: &str) -> Option<String> {
    if ordered {
        let kx: Vec<_> = x.iter().map(|e| &e.0).collect();
        let ky: Vec<_> = y.iter().map(|e| &e.0).collect();
        if kx != ky {
            return Some(format!("{path}: keys {kx:?} vs {ky:?}"));
        }
        for (p, q) in x.iter().zip(y) {
            if let Some(d) = diff(&p.1, &q.1, ordered, &format!("{path}.{}", p.0)) {
                return Some(d);
            }
        }
        return None;
    }
    for (k, v) in x {
        match y.iter().find(|e| &e.0 == k) {
            Some((_, w)) => {
                if let Some(d) = diff(v, w, ordered, &format!("{path}.{k}")) {
                    return Some(d);
                }
            }
            None => return Some(format!("{path}: key {k:?} is missing")),
        }
    }
    for (k, _) in y {
        if !x.iter().any(|e| &e.0 == k) {
            return Some(format!("{path}: key {k:?} is extra"));
        }
    }
    if x.len() != y.len() {
        return Some(format!("{path}: number of keys {} and {}", x.len(), y.len()));
    }
    None
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    Comment,
    Newline,
    Key,
    Dot,
    Eq,
    Scalar,
    ArrOpen,
    ArrClose,
    InlOpen,
    InlClose,
    Comma,
    HdrOpen,
    HdrClose,
    AotOpen,
    AotClose,
}
#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub t: T,
    pub s: usize,
    pub e: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    Invalid(String, usize),
    /// the specification leaves it open (or implementations may differ)
    Unspecified(&'static str),
}
pub struct Doc {
    pub root: Tbl,
    pub toks: Vec<Tok>,
    /// statements: key path of each header / key-value in order
    pub stmts: Vec<Stmt>,
}
#[derive(Clone, Debug)]
pub struct Stmt {
    pub kind: StmtKind,
    pub path: Vec<String>,
    pub start: usize,
    pub key_end: usize,
    pub end: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum StmtKind {
    KeyValue,
    Table,
    Aot,
}

#[derive(Clone, Debug)]
enum Node {
    Val(V),
    Table(TNode),
    Aot(Vec<TNode>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Def {
    Implicit,
    Header,
    Dotted(usize),
}
#[derive(Clone, Debug)]
struct TNode {
    def: Def,
    map: Vec<(String, Node)>,
}
impl TNode {
    fn new(def: Def) -> Self {
        TNode { def, map: vec![] }
    }
    fn idx(&self, k: &str) -> Option<usize> {
        self.map.iter().position(|e| e.0 == k)
    }
    fn into_tbl(self) -> Tbl {
        self.map
            .into_iter()
            .map(|(k, n)| {
                (
                    k,
                    match n {
                        Node::Val(v) => v,
                        Node::Table(t) => V::Tbl(t.into_tbl()),
                        Node::Aot(a) => V::Arr(a.into_iter().map(|t| V::Tbl(t.into_tbl())).collect()),
                    },
                )
            })
            .collect()
    }
}

#[derive(Clone)]
pub struct Parser<'a> {
    src: &'a str,
    b: &'a [u8],
    pos: usize,
    ver: Ver,
    toks: Vec<Tok>,
    stmts: Vec<Stmt>,
    root: TNode,
    cur: Vec<String>,
    scope: usize,
    unspec: Option<&'static str>,
    depth: usize,
}

type R<X> = Result<X, Bad>;

pub fn parse(src: &str, ver: Ver) -> R<Doc> {
    let mut p = Parser {
        src,
        b: src.as_bytes(),
        pos: 0,
        ver,
        toks: vec![],
        stmts: vec![],
        root: TNode::new(Def::Header),
        cur: vec![],
        scope: 0,
        unspec: None,
        depth: 0,
    };
    let r = p.document();
    // an invalid document is invalid whatever else it contains
    r?;
    if let Some(u) = p.unspec {
        return Err(Bad::Unspecified(u));
    }
    Ok(Doc { root: p.root.into_tbl(), toks: p.toks, stmts: p.stmts })
}
/// value-only convenience
pub fn parse_tbl(src: &str, ver: Ver) -> R<Tbl> {
    parse(src, ver).map(|d| d.root)
}

impl<'a> Parser<'a> {
    fn bad<X>(&self, m: impl Into<String>) -> R<X> {
        Err(Bad::Invalid(m.into(), self.pos))
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.pos).copied()
    }
    fn at(&self, s: &str) -> bool {
        self.b[self.pos..].starts_with(s.as_bytes())
    }
    fn tok(&mut self, t: T, s: usize) {
        self.toks.push(Tok { t, s, e: self.pos });
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t')) {
            self.pos += 1;
        }
    }
    fn newline(&mut self) -> bool {
        let s = self.pos;
        if self.at("\n") {
            self.pos += 1;
        } else if self.at("\r\n") {
            self.pos += 2;
        } else {
            return false;
        }
        self.tok(T::Newline, s);
        true
    }
    fn comment(&mut self) -> R<bool> {
        if self.peek() != Some(b'#') {
            return Ok(false);
        }
        let s = self.pos;
        while let Some(c) = self.peek() {
            if c == b'\n' || self.at("\r\n") {
                break;
            }
            if (c < 0x20 && c != b'\t') || c == 0x7f {
                return self.bad("control character in comment");
            }
            self.pos += 1;
        }
        self.tok(T::Comment, s);
        Ok(true)
    }
    fn wcn(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.comment()? || self.newline() {
                continue;
            }
            return Ok(());
        }
    }
    fn document(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.pos >= self.b.len() {
                return Ok(());
            }
            if self.newline() {
                continue;
            }
            if self.comment()? {
                if self.pos < self.b.len() && !self.newline() {
                    return self.bad("newline expected");
                }
                continue;
            }
            let start = self.pos;
            if self.peek() == Some(b'[') {
                self.header(start)?;
            } else {
                let (path, key_end) = self.keyval_outer(start)?;
                self.stmts.push(Stmt { kind: StmtKind::KeyValue, path, start, key_end, end: self.pos });
            }
            self.ws();
            self.comment()?;
            if self.pos < self.b.len() && !self.newline() {
                return self.bad("newline expected after statement");
            }
        }
    }
    fn header(&mut self, start: usize) -> R<()> {
        let aot = self.at("[[");
        self.pos += if aot { 2 } else { 1 };
        self.tok(if aot { T::AotOpen } else { T::HdrOpen }, start);
        self.ws();
        let path = self.key()?;
        let key_end = self.pos;
        self.ws();
        let s = self.pos;
        if aot {
            if !self.at("]]") {
                return self.bad("]] expected");
            }
            self.pos += 2;
            self.tok(T::AotClose, s);
        } else {
            if !self.at("]") {
                return self.bad("] expected");
            }
            self.pos += 1;
            self.tok(T::HdrClose, s);
        }
        self.scope += 1;
        self.define_header(&path, aot)?;
        self.cur = path.clone();
        self.stmts.push(Stmt { kind: if aot { StmtKind::Aot } else { StmtKind::Table }, path, start, key_end, end: self.pos });
        Ok(())
    }
    fn define_header(&mut self, path: &[String], aot: bool) -> R<()> {
        let pos = self.pos;
        let bad = |m: &str| Err(Bad::Invalid(m.into(), pos));
        let mut t = &mut self.root;
        for k in &path[..path.len() - 1] {
            let i = match t.idx(k) {
                Some(i) => i,
                None => {
                    t.map.push((k.clone(), Node::Table(TNode::new(Def::Implicit))));
                    t.map.len() - 1
                }
            };
            t = match &mut t.map[i].1 {
                Node::Table(t) => t,
                Node::Aot(a) => a.last_mut().unwrap(),
                Node::Val(_) => return bad("header goes through a value"),
            };
        }
        let k = path.last().unwrap();
        match t.idx(k) {
            None => t.map.push((
                k.clone(),
                if aot { Node::Aot(vec![TNode::new(Def::Header)]) } else { Node::Table(TNode::new(Def::Header)) },
            )),
            Some(i) => match &mut t.map[i].1 {
                Node::Aot(a) if aot => a.push(TNode::new(Def::Header)),
                Node::Table(t) if !aot && t.def == Def::Implicit => t.def = Def::Header,
                _ => return bad("table redefined"),
            },
        }
        Ok(())
    }
    fn cur_table<'b>(root: &'b mut TNode, cur: &[String]) -> &'b mut TNode {
        let mut t = root;
        for k in cur {
            let i = t.idx(k).unwrap();
            t = match &mut t.map[i].1 {
                Node::Table(t) => t,
                Node::Aot(a) => a.last_mut().unwrap(),
                Node::Val(_) => unreachable!(),
            };
        }
        t
    }
    fn keyval_outer(&mut self, _start: usize) -> R<(Vec<String>, usize)> {
        let path = self.key()?;
        let key_end = self.pos;
        self.ws();
        self.eq()?;
        self.ws();
        let v = self.value()?;
        let (scope, pos) = (self.scope, self.pos);
        let t = Self::cur_table(&mut self.root, &self.cur);
        let mut unspec = None;
        insert(t, &path, v, scope, pos, &mut unspec)?;
        self.unspec = self.unspec.or(unspec);
        Ok((path, key_end))
    }
    fn eq(&mut self) -> R<()> {
        if self.peek() != Some(b'=') {
            return self.bad("= expected");
        }
        let s = self.pos;
        self.pos += 1;
        self.tok(T::Eq, s);
        Ok(())
    }
    fn key(&mut self) -> R<Vec<String>> {
        let mut out = vec![];
        loop {
            let s = self.pos;
            let k = match self.peek() {
                Some(b'"') => {
                    if self.at("\"\"\"") {
                        return self.bad("multi-line key");
                    }
                    self.basic()?
                }
                Some(b'\'') => {
                    if self.at("'''") {
                        return self.bad("multi-line key");
                    }
                    self.literal()?
                }
                _ => {
                    while matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric() || c == b'_' || c == b'-') {
                        self.pos += 1;
                    }
                    if self.pos == s {
                        return self.bad("key expected");
                    }
                    self.src[s..self.pos].to_string()
                }
            };
            self.tok(T::Key, s);
            out.push(k);
            let save = self.pos;
            self.ws();
            if self.peek() == Some(b'.') {
                let s = self.pos;
                self.pos += 1;
                self.tok(T::Dot, s);
                self.ws();
            } else {
                self.pos = save;
                return Ok(out);
            }
        }
    }
    fn escape(&mut self, out: &mut String) -> R<()> {
        // at the backslash
        self.pos += 1;
        let c = self.peek();
        self.pos += 1;
        let n = match c {
            Some(b'b') => return Ok(out.push('\u{8}')),
            Some(b't') => return Ok(out.push('\t')),
            Some(b'n') => return Ok(out.push('\n')),
            Some(b'f') => return Ok(out.push('\u{c}')),
            Some(b'r') => return Ok(out.push('\r')),
            Some(b'"') => return Ok(out.push('"')),
            Some(b'\\') => return Ok(out.push('\\')),
            Some(b'e') if self.ver == Ver::V11 => return Ok(out.push('\u{1b}')),
            Some(b'x') if self.ver == Ver::V11 => 2,
            Some(b'u') => 4,
            Some(b'U') => 8,
            _ => {
                self.pos -= 1;
                return self.bad("bad escape");
            }
        };
        let hex = self.b.get(self.pos..self.pos + n).unwrap_or(&[]);
        if hex.len() != n || !hex.iter().all(|c| c.is_ascii_hexdigit()) {
            return self.bad("bad hex escape");
        }
        let v = u32::from_str_radix(std::str::from_utf8(hex).unwrap(), 16).unwrap();
        match char::from_u32(v) {
            Some(c) => out.push(c),
            None => return self.bad("escape is not a scalar value"),
        }
        self.pos += n;
        Ok(())
    }
    fn basic(&mut self) -> R<String> {
        self.pos += 1;
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return self.bad("unterminated string"),
                Some(b'"') => {
                    self.pos += 1;
                    return Ok(out);
                }
                Some(b'\\') => self.escape(&mut out)?,
                Some(c) if (c < 0x20 && c != b'\t') || c == 0x7f => return self.bad("control character in string"),
                Some(_) => self.push_char(&mut out),
            }
        }
    }
    fn push_char(&mut self, out: &mut String) {
        let c = self.src[self.pos..].chars().next().unwrap();
        out.push(c);
        self.pos += c.len_utf8();
    }
    fn literal(&mut self) -> R<String> {
        self.pos += 1;
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return self.bad("unterminated string"),
                Some(b'\'') => {
                    self.pos += 1;
                    return Ok(out);
                }
                Some(c) if (c < 0x20 && c != b'\t') || c == 0x7f => return self.bad("control character in string"),
                Some(_) => self.push_char(&mut out),
            }
        }
    }
    fn multi(&mut self, q: u8) -> R<String> {
        let three = [q, q, q];
        self.pos += 3;
        let mut out = String::new();
        if self.at("\n") {
            self.pos += 1;
        } else if self.at("\r\n") {
            self.pos += 2;
        }
        loop {
            match self.peek() {
                None => return self.bad("unterminated multi-line string"),
                Some(c) if c == q => {
                    if self.b[self.pos..].starts_with(&three) {
                        // up to two more quotes belong to the content
                        let mut n = 3;
                        while n < 5 && self.b.get(self.pos + n) == Some(&q) {
                            n += 1;
                        }
                        for _ in 0..n - 3 {
                            out.push(q as char);
                        }
                        self.pos += n;
                        return Ok(out);
                    }
                    out.push(q as char);
                    self.pos += 1;
                }
                Some(b'\\') if q == b'"' => {
                    // line-ending backslash?
                    let mut i = self.pos + 1;
                    while matches!(self.b.get(i), Some(b' ' | b'\t')) {
                        i += 1;
                    }
                    if self.b.get(i) == Some(&b'\n') || self.b[i..].starts_with(b"\r\n") {
                        loop {
                            match self.b.get(i) {
                                Some(b' ' | b'\t' | b'\n') => i += 1,
                                Some(b'\r') if self.b.get(i + 1) == Some(&b'\n') => i += 2,
                                _ => break,
                            }
                        }
                        self.pos = i;
                    } else {
                        self.escape(&mut out)?;
                    }
                }
                Some(b'\n') => {
                    out.push('\n');
                    self.pos += 1;
                }
                Some(b'\r') if self.at("\r\n") => {
                    out.push_str("\r\n");
                    self.pos += 2;
                }
                Some(c) if (c < 0x20 && c != b'\t') || c == 0x7f => return self.bad("control character in string"),
                Some(_) => self.push_char(&mut out),
            }
        }
    }
    fn value(&mut self) -> R<V> {
        let s = self.pos;
        let v = match self.peek() {
            None => return self.bad("value expected"),
            Some(b'"') => V::Str(if self.at("\"\"\"") { self.multi(b'"')? } else { self.basic()? }),
            Some(b'\'') => V::Str(if self.at("'''") { self.multi(b'\'')? } else { self.literal()? }),
            Some(b'[') => return self.array(),
            Some(b'{') => return self.inline(),
            Some(_) => self.atom()?,
        };
        self.tok(T::Scalar, s);
        Ok(v)
    }
    fn nest(&mut self) -> R<()> {
        self.depth += 1;
        if self.depth > 60 {
            self.unspec = Some("deep nesting");
        }
        if self.depth > 2000 {
            return Err(Bad::Unspecified("deep nesting"));
        }
        Ok(())
    }
    fn array(&mut self) -> R<V> {
        self.nest()?;
        let s = self.pos;
        self.pos += 1;
        self.tok(T::ArrOpen, s);
        let mut out = vec![];
        loop {
            self.wcn()?;
            if self.peek() == Some(b']') {
                break;
            }
            out.push(self.value()?);
            self.wcn()?;
            match self.peek() {
                Some(b',') => {
                    let s = self.pos;
                    self.pos += 1;
                    self.tok(T::Comma, s);
                }
                Some(b']') => break,
                _ => return self.bad(", or ] expected"),
            }
        }
        let s = self.pos;
        self.pos += 1;
        self.tok(T::ArrClose, s);
        self.depth -= 1;
        Ok(V::Arr(out))
    }
    fn inl_ws(&mut self) -> R<()> {
        match self.ver {
            Ver::V10 => {
                self.ws();
                Ok(())
            }
            Ver::V11 => self.wcn(),
        }
    }
    fn inline(&mut self) -> R<V> {
        self.nest()?;
        let s = self.pos;
        self.pos += 1;
        self.tok(T::InlOpen, s);
        let mut t = TNode::new(Def::Header);
        self.inl_ws()?;
        let mut after_comma = false;
        loop {
            if self.peek() == Some(b'}') {
                if after_comma && self.ver == Ver::V10 {
                    return self.bad("trailing comma in inline table");
                }
                break;
            }
            let path = self.key()?;
            self.ws();
            self.eq()?;
            self.ws();
            let v = self.value()?;
            let mut unspec = None;
            insert(&mut t, &path, v, usize::MAX, self.pos, &mut unspec)?;
            self.inl_ws()?;
            match self.peek() {
                Some(b',') => {
                    let s = self.pos;
                    self.pos += 1;
                    self.tok(T::Comma, s);
                    after_comma = true;
                    self.inl_ws()?;
                }
                Some(b'}') => break,
                _ => return self.bad(", or } expected"),
            }
        }
        let s = self.pos;
        self.pos += 1;
        self.tok(T::InlClose, s);
        self.depth -= 1;
        Ok(V::Tbl(t.into_tbl()))
    }
    fn atom(&mut self) -> R<V> {
        let s = self.pos;
        let mut e = s;
        while matches!(self.b.get(e), Some(c) if c.is_ascii_alphanumeric() || b"+-_.:".contains(c)) {
            e += 1;
        }
        let t = &self.src[s..e];
        if t.is_empty() {
            return self.bad("value expected");
        }
        match t {
            "true" | "false" => {
                self.pos = e;
                return Ok(V::Bool(t == "true"));
            }
            _ => {}
        }
        if is_date_shape(t) && t.len() == 10 {
            // a space may separate date and time
            if self.b.get(e) == Some(&b' ') && matches!(self.b.get(e + 1), Some(c) if c.is_ascii_digit()) {
                let mut e2 = e + 1;
                while matches!(self.b.get(e2), Some(c) if c.is_ascii_alphanumeric() || b"+-_.:".contains(c)) {
                    e2 += 1;
                }
                let full = &self.src[s..e2];
                let d = self.datetime(full)?;
                self.pos = e2;
                return Ok(V::Dt(d));
            }
        }
        if is_date_shape(t) || is_time_shape(t) {
            let d = self.datetime(t)?;
            self.pos = e;
            return Ok(V::Dt(d));
        }
        let v = self.number(t)?;
        self.pos = e;
        Ok(v)
    }
    fn number(&mut self, t: &str) -> R<V> {
        let (sign, body) = match t.as_bytes()[0] {
            b'+' => (1i128, &t[1..]),
            b'-' => (-1, &t[1..]),
            _ => (1, t),
        };
        if body == "inf" {
            return Ok(V::Float(if sign < 0 { f64::NEG_INFINITY } else { f64::INFINITY }));
        }
        if body == "nan" {
            return Ok(V::Float(f64::NAN));
        }
        for (prefix, radix) in [("0x", 16), ("0o", 8), ("0b", 2)] {
            if let Some(d) = body.strip_prefix(prefix) {
                if body.len() != t.len() || !digits_ok(d, radix) {
                    return self.bad("bad prefixed integer");
                }
                return match i64::from_str_radix(&d.replace('_', ""), radix) {
                    Ok(v) => Ok(V::Int(v)),
                    Err(_) => self.bad("integer out of range"),
                };
            }
        }
        let int_len = body.bytes().take_while(|c| c.is_ascii_digit() || *c == b'_').count();
        let (int, rest) = body.split_at(int_len);
        if !digits_ok(int, 10) || (int.len() > 1 && int.starts_with('0')) {
            return self.bad("bad number");
        }
        if rest.is_empty() {
            let v: Result<i128, _> = int.replace('_', "").parse::<i128>();
            return match v.ok().map(|v| v * sign).and_then(|v| i64::try_from(v).ok()) {
                Some(v) => Ok(V::Int(v)),
                None => self.bad("integer out of range"),
            };
        }
        let mut rest = rest;
        if let Some(r) = rest.strip_prefix('.') {
            let n = r.bytes().take_while(|c| c.is_ascii_digit() || *c == b'_').count();
            if !digits_ok(&r[..n], 10) {
                return self.bad("bad fraction");
            }
            rest = &r[n..];
        }
        if let Some(r) = rest.strip_prefix(['e', 'E']) {
            let r = r.strip_prefix(['+', '-']).unwrap_or(r);
            if !digits_ok(r, 10) {
                return self.bad("bad exponent");
            }
            rest = "";
        }
        if !rest.is_empty() {
            return self.bad("bad number");
        }
        let v: f64 = t.replace('_', "").parse().map_err(|_| Bad::Invalid("bad float".into(), self.pos))?;
        if v.is_infinite() {
            self.unspec = Some("float overflow");
        }
        Ok(V::Float(v))
    }
    fn datetime(&mut self, t: &str) -> R<Dt> {
        match parse_dt(t, self.ver) {
            Ok((d, unspec)) => {
                self.unspec = self.unspec.or(unspec);
                Ok(d)
            }
            Err(m) => self.bad(m),
        }
    }
}

/// Parses one date/time text by the TOML grammar. The second component names an unspecified aspect.
pub fn parse_dt(t: &str, ver: Ver) -> Result<(Dt, Option<&'static str>), &'static str> {
    let mut unspec = None;
    let mut d = Dt { date: None, time: None, offset: None };
    let mut rest = t;
    if is_date_shape(t) {
        let n = |a: usize, b: usize| t[a..b].parse::<u16>().unwrap();
        let (y, m, day) = (n(0, 4), n(5, 7), n(8, 10));
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let max = match m {
            2 => 28 + leap as u16,
            4 | 6 | 9 | 11 => 30,
            1..=12 => 31,
            _ => return Err("month"),
        };
        if day < 1 || day > max {
            return Err("day");
        }
        if y == 0 {
            unspec = Some("year 0");
        }
        d.date = Some((y, m as u8, day as u8));
        if t.len() == 10 {
            return Ok((d, unspec));
        }
        if !matches!(t.as_bytes()[10], b'T' | b't' | b' ') {
            return Err("date delimiter");
        }
        rest = &t[11..];
    }
    let b = rest.as_bytes();
    let two = |i: usize| -> Option<u8> {
        let s = b.get(i..i + 2)?;
        s.iter().all(|c| c.is_ascii_digit()).then(|| (s[0] - b'0') * 10 + s[1] - b'0')
    };
    let (Some(h), Some(b':'), Some(mi)) = (two(0), b.get(2), two(3)) else { return Err("time") };
    let mut i = 5;
    let (mut sec, mut ns) = (0, 0);
    if b.get(5) == Some(&b':') {
        let Some(x) = two(6) else { return Err("seconds") };
        sec = x;
        i = 8;
        if b.get(8) == Some(&b'.') {
            let n = b[9..].iter().take_while(|c| c.is_ascii_digit()).count();
            if n == 0 {
                return Err("fraction");
            }
            let mut digits: Vec<u8> = b[9..9 + n.min(9)].to_vec();
            digits.resize(9, b'0');
            ns = std::str::from_utf8(&digits).unwrap().parse().unwrap();
            i = 9 + n;
        }
    } else if ver == Ver::V10 {
        return Err("seconds are required");
    }
    if h > 23 || mi > 59 || sec > 60 {
        return Err("time out of range");
    }
    if sec == 60 {
        unspec = Some("leap second");
    }
    d.time = Some((h, mi, sec, ns));
    let off = &rest[i..];
    if off.is_empty() {
        return Ok((d, unspec));
    }
    if d.date.is_none() {
        return Err("offset on a local time");
    }
    let ob = off.as_bytes();
    d.offset = Some(match ob[0] {
        b'Z' | b'z' if ob.len() == 1 => 0,
        c @ (b'+' | b'-') => {
            if ob.len() != 6 || ob[3] != b':' || ![1, 2, 4, 5].iter().all(|i| ob[*i].is_ascii_digit()) {
                return Err("offset");
            }
            let (oh, om): (i16, i16) = (off[1..3].parse().unwrap(), off[4..6].parse().unwrap());
            if oh > 23 || om > 59 {
                return Err("offset out of range");
            }
            (oh * 60 + om) * if c == b'-' { -1 } else { 1 }
        }
        _ => return Err("offset"),
    });
    Ok((d, unspec))
}
fn is_date_shape(t: &str) -> bool {
    let b = t.as_bytes();
    b.len() >= 10
        && b[..4].iter().all(u8::is_ascii_digit)
        && b[4] == b'-'
        && b[5].is_ascii_digit()
        && b[6].is_ascii_digit()
        && b[7] == b'-'
        && b[8].is_ascii_digit()
        && b[9].is_ascii_digit()
}
fn is_time_shape(t: &str) -> bool {
    let b = t.as_bytes();
    b.len() >= 3 && b[0].is_ascii_digit() && b[1].is_ascii_digit() && b[2] == b':'
}
fn digits_ok(s: &str, radix: u32) -> bool {
    !s.is_empty()
        && !s.starts_with('_')
        && !s.ends_with('_')
        && !s.contains("__")
        && s.chars().all(|c| c == '_' || c.is_digit(radix))
}
fn insert(t: &mut TNode, path: &[String], v: V, scope: usize, pos: usize, unspec: &mut Option<&'static str>) -> R<()> {
    let bad = |m: &str| Err(Bad::Invalid(m.into(), pos));
    let k = &path[0];
    if path.len() == 1 {
        if t.idx(k).is_some() {
            return bad("duplicate key");
        }
        t.map.push((k.clone(), Node::Val(v)));
        return Ok(());
    }
    let i = match t.idx(k) {
        Some(i) => i,
        None => {
            t.map.push((k.clone(), Node::Table(TNode::new(Def::Dotted(scope)))));
            t.map.len() - 1
        }
    };
    match &mut t.map[i].1 {
        Node::Table(c) => {
            match c.def {
                Def::Dotted(s) if s == scope => {}
                Def::Header => return bad("dotted key extends a table defined by a header"),
                Def::Implicit => *unspec = Some("dotted key extends an implicitly created table"),
                Def::Dotted(_) => *unspec = Some("dotted key extends a dotted table of another section"),
            }
            insert(c, &path[1..], v, scope, pos, unspec)
        }
        _ => bad("dotted key extends a value"),
    }
}
