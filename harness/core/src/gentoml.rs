//! Generator of TOML documents, valid by construction (each statement is kept only if the
//! reference parser accepts the document with it).
use crate::engine::Src;
use crate::reftoml::{self, Ver};

#[derive(Clone)]
pub struct Cfg {
    pub ver: Ver,
    /// comments per mille at each place that allows one
    pub comments: u32,
    pub max_stmts: usize,
    pub depth: u32,
    pub nl: &'static str,
    /// mix LF and CRLF
    pub mixed_nl: bool,
    /// odd whitespace
    pub messy: bool,
    pub blank_lines: bool,
    /// long tokens so that line-width decisions matter
    pub long: bool,
    pub datetimes: bool,
    pub dotted: bool,
    pub headers: bool,
    pub multiline_arrays: bool,
    pub unicode: bool,
}
impl Cfg {
    pub fn new(ver: Ver) -> Self {
        Cfg {
            ver,
            comments: 150,
            max_stmts: 12,
            depth: 3,
            nl: "\n",
            mixed_nl: false,
            messy: true,
            blank_lines: true,
            long: true,
            datetimes: true,
            dotted: true,
            headers: true,
            multiline_arrays: true,
            unicode: true,
        }
    }
    pub fn random(src: &mut Src) -> Self {
        let ver = *src.pick(&[Ver::V10, Ver::V11]);
        let mut c = Cfg::new(ver);
        c.comments = *src.pick(&[0, 60, 200, 450]);
        c.max_stmts = *src.pick(&[3, 6, 12, 24]);
        c.nl = *src.pick(&["\n", "\n", "\n", "\r\n"]);
        c.mixed_nl = src.chance(1, 12);
        c.messy = src.chance(2, 3);
        c.long = src.chance(1, 2);
        c.multiline_arrays = src.chance(3, 4);
        c.depth = src.below(4);
        c
    }
}

pub const BARE: &[&str] = &["a", "b", "c", "d", "key", "k1", "k10", "k2", "x-y", "_u", "1", "-", "name", "Zed", "a1", "true", "inf", "2020-01-01"];
const QUOTED: &[&str] = &[
    "\"\"", "''", "\"a\"", "'b'", "\"a.b\"", "'c d'", "\"é\"", "\"日本\"", "\"q\\\"q\"", "'lit\"q'", "\"tab\\tx\"",
    "\"\\u0061\"", "\"😀\"", "\"#no\"", "'='", "\"[x]\"", "\"k1\"", "\"it's\"", "\"back\\\\slash\"", "'C:\\dir'",
    "\"e\u{301}\"", "'👨\u{200d}👩\u{200d}👧'", "\"🇯🇵 x\"", "\"\u{a0}\"", "\"ｗ\"",
];
pub fn key(src: &mut Src, cfg: &Cfg) -> String {
    if src.chance(1, 5) {
        src.pick(QUOTED).to_string()
    } else if cfg.long && src.chance(1, 25) {
        "a_rather_long_key_name_to_reach_the_width_limit".into()
    } else {
        src.pick(BARE).to_string()
    }
}
pub fn ws(src: &mut Src, cfg: &Cfg, usual: &str) -> String {
    if !cfg.messy || src.chance(3, 5) {
        return usual.to_string();
    }
    src.pick(&["", " ", "  ", "\t", " \t ", "    "]).to_string()
}
fn nl(src: &mut Src, cfg: &Cfg) -> &'static str {
    if cfg.mixed_nl && src.bool() { if cfg.nl == "\n" { "\r\n" } else { "\n" } } else { cfg.nl }
}
pub fn dotted(src: &mut Src, cfg: &Cfg, max: usize) -> String {
    let n = if cfg.dotted && src.chance(1, 3) { src.usize(1, max) } else { 1 };
    let mut s = key(src, cfg);
    for _ in 1..n {
        let (a, b) = if cfg.messy && src.chance(1, 8) { (ws(src, cfg, ""), ws(src, cfg, "")) } else { (String::new(), String::new()) };
        s = format!("{s}{a}.{b}{}", key(src, cfg));
    }
    s
}
const COMMENTS: &[&str] = &[
    "# note", "#note", "#", "# ", "#  two spaces", "## heading", "#\ttab", "# trailing space ", "# ünïcode 日本 😀", "#!bang",
    "# a = 1", "# [table]", "# \"quote", "# a longer comment that goes on for a while and then some more words to reach the width",
    "# {", "# ]", "#-dash", "# x # y", "#\u{3000}wide",
];
pub fn comment(src: &mut Src) -> String {
    if src.chance(1, 4) {
        const FRAGS: &[&str] = &[
            "a", "b c", " ", "  ", "#", "\u{3000}", "\u{a0}", "\u{2028}", "\u{85}", "\u{200b}", "\u{feff}", "e\u{301}", "\t", "1", ":", "'", "\"\"\"", "\\", "!",
        ];
        let mut s = "#".to_string();
        for _ in 0..src.usize(0, 4) {
            s += src.pick(FRAGS);
        }
        return s;
    }
    src.pick(COMMENTS).to_string()
}

/// a character from anywhere in Unicode that a TOML string may hold as it is
fn any_char(src: &mut Src) -> char {
    let (lo, hi) = *src.pick(&[(0x80, 0xff), (0x100, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff), (0x300, 0x36f), (0x1f300, 0x1f6ff), (0x2000, 0x206f)]);
    char::from_u32(src.range(lo, hi) as u32).unwrap()
}
/// `digits` hexadecimal digits of a Unicode scalar value, boundaries often
fn scalar_hex(src: &mut Src, digits: usize) -> String {
    let max = match digits { 2 => 0xff, 4 => 0xffff, _ => 0x10ffff };
    let n = if src.chance(1, 2) {
        *src.pick(&[0, 0x1f, 0x20, 0x22, 0x27, 0x5c, 0x7f, 0x80, 0xff, 0x100, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x10ffff])
    } else {
        src.range(0, max) as u32
    };
    let n = if n > max as u32 || (0xd800..=0xdfff).contains(&n) { 0x41 } else { n };
    if src.bool() { format!("{n:0digits$x}") } else { format!("{n:0digits$X}") }
}
pub fn escape(src: &mut Src, ver: Ver) -> String {
    match src.below(if ver == Ver::V11 { 3 } else { 2 }) {
        0 => format!("\\u{}", scalar_hex(src, 4)),
        1 => format!("\\U{}", scalar_hex(src, 8)),
        _ => format!("\\x{}", scalar_hex(src, 2)),
    }
}
fn frag(src: &mut Src, cfg: &Cfg) -> String {
    const ASCII: &[&str] = &["a", "foo", "bar baz", "1.2.3", "x", " ", "  ", "#", "=", "[", "]", "{", ",", ".", "~", "://h/p?q=1", "%"];
    const UNI: &[&str] = &["é", "日本語", "😀", "👨\u{200d}👩\u{200d}👧", "e\u{301}", "\u{a0}", "\u{feff}", "\u{85}", "\u{2028}", "ﷺ", "\u{202e}"];
    if cfg.unicode && src.chance(1, 5) {
        if src.chance(1, 3) { any_char(src).into() } else { src.pick(UNI).to_string() }
    } else {
        src.pick(ASCII).to_string()
    }
}
pub fn string(src: &mut Src, cfg: &Cfg, allow_multi: bool) -> String {
    let n = if cfg.long && src.chance(1, 10) { src.usize(8, 20) } else { src.usize(0, 4) };
    let kind = if allow_multi { src.weighted(&[6, 3, 2, 2]) } else { src.weighted(&[6, 3]) };
    let mut s = String::new();
    for _ in 0..n {
        match kind {
            0 | 2 => {
                if src.chance(1, 3) {
                    const ESC: &[&str] = &[
                        "\\n", "\\t", "\\\"", "\\\\", "\\b", "\\f", "\\r", "\\u00e9", "\\u0041", "\\U0001F600", "\\u0000", "\\u001f",
                        "\\u007F", "\\u0022", "\\u005C", "\\u0027",
                    ];
                    const ESC11: &[&str] = &["\\e", "\\x41", "\\x22", "\\x7f", "\\x00"];
                    if src.chance(1, 5) { s += &escape(src, cfg.ver) } else if cfg.ver == Ver::V11 && src.chance(1, 4) { s += src.pick(ESC11) } else { s += src.pick(ESC) }
                } else if src.chance(1, 6) {
                    s.push('\'')
                } else if kind == 2 {
                    match src.below(6) {
                        0 => s += nl(src, cfg),
                        1 => {
                            s += "\\";
                            s += src.pick(&["", " ", "\t", "  "]);
                            s += nl(src, cfg);
                            if src.bool() {
                                s += nl(src, cfg);
                            }
                            s += src.pick(&["", "  ", "\t"]);
                        }
                        2 => s += src.pick(&["\"", "\"\"", "\\\"\"\""]),
                        3 => s += src.pick(&["  ", "\t", " "]),
                        _ => s += &frag(src, cfg),
                    }
                } else {
                    s += &frag(src, cfg)
                }
            }
            1 => {
                if src.chance(1, 4) {
                    s += src.pick(&["\"", "\\", "\\n", "\\u0041", "\t", "\"\"\""])
                } else {
                    s += &frag(src, cfg)
                }
            }
            _ => match src.below(7) {
                0 => s += nl(src, cfg),
                1 => s += src.pick(&["'", "''", "\"", "\"\"\"", "\\", "\\n"]),
                2 => s += src.pick(&["  ", "\t", " "]),
                _ => s += &frag(src, cfg),
            },
        }
    }
    match kind {
        0 => format!("\"{s}\""),
        1 => format!("'{s}'"),
        2 => {
            let first = if src.chance(1, 2) { nl(src, cfg) } else { "" };
            let q = if src.chance(1, 6) { *src.pick(&["\"", "\"\""]) } else { "" };
            format!("\"\"\"{first}{s}{q}\"\"\"")
        }
        _ => {
            let first = if src.chance(1, 2) { nl(src, cfg) } else { "" };
            let q = if src.chance(1, 6) { *src.pick(&["'", "''"]) } else { "" };
            format!("'''{first}{s}{q}'''")
        }
    }
}
fn digits(src: &mut Src, first_nonzero: bool, max: usize) -> String {
    let n = src.usize(1, max);
    let mut s = String::new();
    for i in 0..n {
        let lo = (i == 0 && first_nonzero) as i64;
        s.push((b'0' + src.range(lo, 9) as u8) as char);
        if i + 1 < n && src.chance(1, 8) {
            s.push('_');
        }
    }
    s
}
/// a hexadecimal, octal or binary integer up to the largest one
fn based(src: &mut Src, base: u32) -> String {
    let n = match src.below(4) {
        0 => src.range(0, 255),
        1 => i64::MAX - src.range(0, 3),
        2 => 1i64 << src.range(0, 62),
        _ => src.range(0, i64::MAX - 1),
    };
    let (p, t) = match base {
        16 => ("0x", if src.bool() { format!("{n:x}") } else { format!("{n:X}") }),
        8 => ("0o", format!("{n:o}")),
        _ => ("0b", format!("{n:b}")),
    };
    let mut s = p.to_string();
    for _ in 0..src.below(3) {
        s.push('0');
    }
    for (i, c) in t.chars().enumerate() {
        if i > 0 && src.chance(1, 8) {
            s.push('_');
        }
        s.push(c);
    }
    s
}
pub fn integer(src: &mut Src) -> String {
    match src.weighted(&[5, 2, 1, 1, 1, 1]) {
        0 => {
            let sign = *src.pick(&["", "", "-", "+"]);
            format!("{sign}{}", if src.chance(1, 5) { "0".into() } else { digits(src, true, 6) })
        }
        1 => src.pick(&["1", "0", "42", "-0", "+0", "9223372036854775807", "-9223372036854775808", "1_000_000"]).to_string(),
        2 => {
            const H: &[&str] = &["0xDEADBEEF", "0xdead_beef", "0x0", "0x00ff", "0x7FFFFFFFFFFFFFFF", "0xaB", "0xe1", "0xE_1"];
            if src.bool() { based(src, 16) } else { src.pick(H).to_string() }
        }
        3 if src.bool() => based(src, 8),
        4 if src.bool() => based(src, 2),
        3 => src.pick(&["0o755", "0o0", "0o0_1", "0o777777777777777777777"]).to_string(),
        4 => src.pick(&["0b1101", "0b0", "0b1_0", "0b000"]).to_string(),
        _ => digits(src, true, 17),
    }
}
pub fn float(src: &mut Src) -> String {
    match src.weighted(&[4, 3, 2]) {
        0 => {
            let sign = *src.pick(&["", "", "-", "+"]);
            let int = if src.bool() { "0".into() } else { digits(src, true, 4) };
            format!("{sign}{int}.{}", digits(src, false, 4))
        }
        1 => {
            let sign = *src.pick(&["", "-", "+"]);
            let int = if src.bool() { "0".into() } else { digits(src, true, 3) };
            let frac = if src.bool() { format!(".{}", digits(src, false, 3)) } else { String::new() };
            let e = *src.pick(&["e", "E"]);
            let es = *src.pick(&["", "+", "-"]);
            format!("{sign}{int}{frac}{e}{es}{}", digits(src, false, 2))
        }
        _ => src.pick(&["inf", "+inf", "-inf", "nan", "+nan", "-nan", "0.0", "-0.0", "3.14", "1e10", "6.626e-34", "1_000.000_1", "0e0", "1.0"]).to_string(),
    }
}
pub fn date(src: &mut Src) -> String {
    if src.chance(1, 5) {
        return src.pick(&["2000-02-29", "1900-02-28", "9999-12-31", "0001-01-01", "2024-02-29", "1979-05-27", "2023-04-30"]).to_string();
    }
    let m = src.range(1, 12);
    let d = src.range(1, if m == 2 { 28 } else if [4, 6, 9, 11].contains(&m) { 30 } else { 31 });
    format!("{:04}-{m:02}-{d:02}", src.range(1, 9999))
}
pub fn time(src: &mut Src, cfg: &Cfg) -> String {
    let h = src.range(0, 23);
    let m = src.range(0, 59);
    if cfg.ver == Ver::V11 && src.chance(1, 4) {
        return format!("{h:02}:{m:02}");
    }
    let s = src.range(0, 59);
    let frac = if src.chance(1, 3) {
        let n = src.usize(1, 12);
        let mut f = String::from(".");
        for _ in 0..n {
            f.push((b'0' + src.below(10) as u8) as char);
        }
        f
    } else {
        String::new()
    };
    format!("{h:02}:{m:02}:{s:02}{frac}")
}
pub fn offset(src: &mut Src) -> String {
    match src.below(4) {
        0 => "Z".into(),
        1 => "z".into(),
        2 => src.pick(&["+00:00", "-00:00", "+23:59", "-23:59", "+09:00", "-07:30"]).to_string(),
        _ => format!("{}{:02}:{:02}", src.pick(&["+", "-"]), src.range(0, 23), src.range(0, 59)),
    }
}
pub fn datetime(src: &mut Src, cfg: &Cfg) -> String {
    match src.below(4) {
        0 => date(src),
        1 => time(src, cfg),
        2 => format!("{}{}{}", date(src), src.pick(&["T", "t", " "]), time(src, cfg)),
        _ => format!("{}{}{}{}", date(src), src.pick(&["T", "t", " "]), time(src, cfg), offset(src)),
    }
}
pub fn scalar(src: &mut Src, cfg: &Cfg) -> String {
    match src.weighted(&[4, 5, 2, 2, if cfg.datetimes { 2 } else { 0 }]) {
        0 => integer(src),
        1 => string(src, cfg, true),
        2 => src.pick(&["true", "false"]).to_string(),
        3 => float(src),
        _ => datetime(src, cfg),
    }
}
pub fn value(src: &mut Src, cfg: &Cfg, depth: u32) -> String {
    if depth == 0 {
        return scalar(src, cfg);
    }
    match src.weighted(&[6, 3, 2]) {
        0 => scalar(src, cfg),
        1 => array(src, cfg, depth),
        _ => inline_table(src, cfg, depth),
    }
}
/// whitespace, comments and newlines inside an array or (v1.1) inline table
fn wcn(src: &mut Src, cfg: &Cfg, indent: &str) -> String {
    let mut s = String::new();
    if src.chance(cfg.comments, 1000) {
        s += &ws(src, cfg, " ");
        s += &comment(src);
        s += nl(src, cfg);
        while src.chance(1, 4) {
            s += &ws(src, cfg, indent);
            if src.bool() {
                s += &comment(src);
            }
            s += nl(src, cfg);
        }
    } else {
        s += nl(src, cfg);
        if cfg.blank_lines && src.chance(1, 8) {
            s += nl(src, cfg);
        }
        while src.chance(cfg.comments, 2000) {
            s += &ws(src, cfg, indent);
            s += &comment(src);
            s += nl(src, cfg);
            if cfg.blank_lines && src.chance(1, 5) {
                s += nl(src, cfg);
            }
        }
    }
    s += &ws(src, cfg, indent);
    s
}
fn seq(src: &mut Src, cfg: &Cfg, items: Vec<String>, multi: bool, trailing_ok: bool) -> String {
    let mut s = String::new();
    let n = items.len();
    let ind = "  ";
    if multi {
        s += &wcn(src, cfg, ind);
    } else {
        s += &ws(src, cfg, "");
    }
    for (i, it) in items.into_iter().enumerate() {
        s += &it;
        let last = i + 1 == n;
        if multi && src.chance(cfg.comments, 3000) {
            // before the comma
            s += &wcn(src, cfg, ind);
        } else {
            s += &ws(src, cfg, "");
        }
        if !last || (trailing_ok && src.chance(1, 3)) {
            s.push(',');
        }
        if !last {
            if multi && src.chance(4, 5) {
                s += &wcn(src, cfg, ind);
            } else {
                s += &ws(src, cfg, " ");
            }
        } else if multi {
            s += &wcn(src, cfg, "");
        } else {
            s += &ws(src, cfg, "");
        }
    }
    s
}
pub fn array(src: &mut Src, cfg: &Cfg, depth: u32) -> String {
    let n = if cfg.long && src.chance(1, 10) { src.usize(5, 14) } else { src.usize(0, 4) };
    let items: Vec<String> = (0..n).map(|_| value(src, cfg, depth - 1)).collect();
    let multi = cfg.multiline_arrays && src.chance(2, 5);
    format!("[{}]", seq(src, cfg, items, multi, true))
}
pub fn inline_table(src: &mut Src, cfg: &Cfg, depth: u32) -> String {
    let n = src.usize(0, 3);
    let mut items: Vec<String> = vec![];
    for _ in 0..n {
        let item = format!(
            "{}{}={}{}",
            dotted(src, cfg, 3),
            ws(src, cfg, " "),
            ws(src, cfg, " "),
            value(src, cfg, depth - 1)
        );
        let probe = format!("x={{{},{item}}}", items.join(","));
        let probe = probe.replacen("{,", "{", 1);
        if reftoml::parse(&probe, cfg.ver).is_ok() {
            items.push(item);
        }
    }
    let v11 = cfg.ver == Ver::V11;
    let multi = v11 && src.chance(2, 5);
    let trailing = v11 && !items.is_empty();
    format!("{{{}}}", seq(src, cfg, items, multi, trailing))
}

/// One generated document. Valid for cfg.ver.
pub fn document(src: &mut Src, cfg: &Cfg) -> String {
    let mut out = String::new();
    let n = src.usize(0, cfg.max_stmts);
    let mut first = true;
    for _ in 0..n {
        let mut st = String::new();
        // blank lines and comments above
        if cfg.blank_lines {
            while src.chance(1, 5) {
                if cfg.messy && src.chance(1, 6) {
                    st += "  ";
                }
                st += nl(src, cfg);
            }
        }
        while src.chance(cfg.comments, 1500) {
            if cfg.messy && src.chance(1, 4) {
                st += &ws(src, cfg, "");
            }
            st += &comment(src);
            st += nl(src, cfg);
            if cfg.blank_lines && src.chance(1, 4) {
                st += nl(src, cfg);
            }
        }
        if cfg.messy && src.chance(1, 5) {
            st += &ws(src, cfg, "");
        }
        let kind = if cfg.headers { src.weighted(&[6, if first { 1 } else { 2 }, 1]) } else { 0 };
        first = false;
        match kind {
            0 => {
                let k = dotted(src, cfg, 3);
                st += &format!("{k}{}={}{}", ws(src, cfg, " "), ws(src, cfg, " "), value(src, cfg, cfg.depth));
            }
            1 => st += &format!("[{}{}{}]", ws(src, cfg, ""), dotted(src, cfg, 3), ws(src, cfg, "")),
            _ => st += &format!("[[{}{}{}]]", ws(src, cfg, ""), dotted(src, cfg, 3), ws(src, cfg, "")),
        }
        if src.chance(cfg.comments, 1500) {
            st += &ws(src, cfg, " ");
            st += &comment(src);
        } else if cfg.messy && src.chance(1, 8) {
            st += "  ";
        }
        st += nl(src, cfg);
        let cand = format!("{out}{st}");
        if reftoml::parse(&cand, cfg.ver).is_ok() {
            out = cand;
        }
    }
    while src.chance(cfg.comments, 2000) {
        if cfg.blank_lines && src.chance(1, 3) {
            out += nl(src, cfg);
        }
        out += &comment(src);
        out += nl(src, cfg);
    }
    if cfg.blank_lines && src.chance(1, 6) {
        out += nl(src, cfg);
    }
    if src.chance(1, 6) {
        // no newline at the end of the file
        if let Some(s) = out.strip_suffix("\r\n").or_else(|| out.strip_suffix('\n')) {
            out = s.to_string();
        }
    }
    out
}

/// Character- and token-level mutation of a document.
pub fn mutate(src: &mut Src, doc: &str) -> String {
    let mut s: Vec<char> = doc.chars().collect();
    let n = 1 + src.below(3);
    for _ in 0..n {
        const BITS: &[&str] = &[
            "\"", "'", "\"\"\"", "'''", "\\", "\n", "\r", "\r\n", "[", "]", "[[", "]]", "{", "}", ",", "=", ".", "#", " ", "\t", "0", "1",
            "_", "-", "+", "e", "E", ":", "T", "Z", "x", "o", "b", "inf", "nan", "true", "\u{0}", "\u{7f}", "\u{b}", "é", "😀", "\u{feff}",
            "\u{a0}", "\u{2028}", "0x", "0b", "0o", "1.", ".1", "1e", "1979-05-27", "07:32:00", "12:30", "+09:00", "\\u", "\\U", "\\x4",
            "\\e", "\\u+041", "\\ud800", "\\U00110000", "a.b", "a = 1", "[a]", "[[a]]", "{}", "[]", "a={}", "True", "FALSE", "Inf", "1__0", "|",
            "~", "::", "0|1", "\u{1f}",
        ];
        let at = src.usize(0, s.len());
        match src.below(6) {
            0 | 1 => {
                let ins: Vec<char> = src.pick(BITS).chars().collect();
                s.splice(at..at, ins);
            }
            2 => {
                if at < s.len() {
                    s.remove(at);
                }
            }
            3 => {
                if at < s.len() {
                    let ins: Vec<char> = src.pick(BITS).chars().collect();
                    s.splice(at..at + 1, ins);
                }
            }
            4 => {
                let end = (at + src.usize(1, 12)).min(s.len());
                s.drain(at..end);
            }
            _ => {
                // duplicate a piece somewhere else (makes duplicate keys and tables)
                let end = (at + src.usize(1, 30)).min(s.len());
                let piece: Vec<char> = s[at..end].to_vec();
                let to = src.usize(0, s.len());
                s.splice(to..to, piece);
            }
        }
    }
    s.into_iter().collect()
}
/// Swap / repeat whole lines (semantic errors such as duplicate tables).
pub fn mutate_lines(src: &mut Src, doc: &str) -> String {
    let mut l: Vec<&str> = doc.split_inclusive('\n').collect();
    if l.is_empty() {
        return doc.to_string();
    }
    for _ in 0..1 + src.below(3) {
        let i = src.usize(0, l.len() - 1);
        match src.below(3) {
            0 => {
                let j = src.usize(0, l.len() - 1);
                l.swap(i, j);
            }
            1 => {
                let x = l[i];
                let j = src.usize(0, l.len());
                l.insert(j, x);
            }
            _ => {
                if l.len() > 1 {
                    l.remove(i);
                }
            }
        }
    }
    let mut out = String::new();
    for x in l {
        out += x;
        if !x.ends_with('\n') {
            out.push('\n');
        }
    }
    out
}
