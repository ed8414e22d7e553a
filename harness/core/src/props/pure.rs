//! C17 JSON reader, C18 version sort, C19 date-times, C20 text positions
use crate::engine::*;
use crate::ensure;
use crate::gentoml as g;
use crate::refjson::{self, JV};
use crate::reftoml::{self, Dt, Ver};
use serde_json::Value as J;
use std::cmp::Ordering as O;
use unicode_segmentation::UnicodeSegmentation;

// ------------------------------------------------------------ C17
fn json_ws(src: &mut Src) -> &'static str {
    ["", " ", "", "\n", "\t", "\r\n", "  ", "\r", "\n\r", "\n\n \t"][src.weighted(&[12, 6, 6, 2, 1, 1, 1, 1, 1, 1])]
}
fn json_string(src: &mut Src) -> String {
    const P: &[&str] = &[
        "a", "b", "Key", " ", "0", "/", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u0000", "\\uFFFF",
        "\\ud83d\\ude00", "\\uD83D\\uDE00", "\\udbff\\udfff", "é", "e\u{301}", "😀", "👨‍👩‍👧", "\u{7f}", "\u{2028}", "'", "{", "]", ",", ":", "#", "\u{600}",
        "\\ud800", "\\udc00", "\\ud83d\\u0041", "\u{80}", "\u{feff}", "\\u005c", "\\u0022", "\\u2029", "\\ue000", "\\ud7ff",
    ];
    let w = if src.chance(1, 12) { 0..P.len() } else { 0..34 };
    let n = src.usize(0, 6);
    let mut s = String::from("\"");
    for _ in 0..n {
        s += P[w.start + src.below((w.end - w.start) as u32) as usize];
    }
    s + "\""
}
fn json_number(src: &mut Src) -> String {
    let digits = |src: &mut Src, n: usize| -> String { (0..n).map(|_| char::from(b'0' + src.below(10) as u8)).collect() };
    match src.weighted(&[4, 3, 3, 2, 2]) {
        0 => src.range(-20, 2000).to_string(),
        1 => {
            const E: &[&str] = &[
                "0", "-0", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775807", "9223372036854775808",
                "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "4294967296", "1e999", "-1e999", "1e-999", "0.1", "1.0", "1.50",
                "1e5", "1E+2", "12e-1", "1.7976931348623157e308", "5e-324", "0e0", "-0.0", "9223372036854775295", "9223372036854774784.0", "123456789012345678901234567890",
            ];
            src.pick(E).to_string()
        }
        2 => {
            let n = src.usize(1, 22);
            let d = digits(src, n);
            let d = d.trim_start_matches('0');
            format!("{}{}", if src.bool() { "-" } else { "" }, if d.is_empty() { "0" } else { d })
        }
        3 => {
            let (a, b) = (src.range(0, 99999), src.usize(1, 12));
            format!("{}{a}.{}", if src.bool() { "-" } else { "" }, digits(src, b))
        }
        _ => {
            let a = src.range(0, 999);
            let f = if src.bool() { format!(".{}", src.range(0, 999)) } else { String::new() };
            format!("{a}{f}{}{}{}", src.pick(&["e", "E"]), src.pick(&["", "+", "-"]), src.range(0, 330))
        }
    }
}
fn json_value(src: &mut Src, depth: u32) -> String {
    let k = src.weighted(&[3, 3, 2, 1, if depth == 0 { 0 } else { 3 }, if depth == 0 { 0 } else { 4 }]);
    match k {
        0 => json_number(src),
        1 => json_string(src),
        2 => src.pick(&["true", "false"]).to_string(),
        3 => "null".into(),
        4 => {
            let n = src.usize(0, 4);
            let mut s = format!("[{}", json_ws(src));
            for i in 0..n {
                s += &json_value(src, depth - 1);
                s += json_ws(src);
                if i + 1 < n {
                    s.push(',');
                    s += json_ws(src);
                }
            }
            s + "]"
        }
        _ => {
            let n = src.usize(0, 4);
            let mut s = format!("{{{}", json_ws(src));
            for i in 0..n {
                s += &json_string(src);
                s += json_ws(src);
                s.push(':');
                s += json_ws(src);
                s += &json_value(src, depth - 1);
                s += json_ws(src);
                if i + 1 < n {
                    s.push(',');
                    s += json_ws(src);
                }
            }
            s + "}"
        }
    }
}
fn json_mutate(src: &mut Src, doc: &str) -> String {
    let mut s: Vec<char> = doc.chars().collect();
    for _ in 0..1 + src.below(2) {
        const BITS: &[&str] = &[
            "\"", "\\", "[", "]", "{", "}", ",", ":", "-", "+", "0", "1", "01", ".", "e", "E", "null", "true", "True", "NaN", "Infinity", "//", "/*", "'", "\n",
            "\r", "\t", "\u{0}", "\u{1f}", "\u{a0}", "\u{feff}", "\\u", "\\x", "\\u00", "\\u+123", "\\U", "#", "_", "x", "\u{b}", "\u{c}", "nul", "tru", "fals", "00", "\\ud800", "\\'", "é",
        ];
        let at = src.usize(0, s.len());
        match src.below(5) {
            0 | 1 => {
                let ins: Vec<char> = src.pick(BITS).chars().collect();
                s.splice(at..at, ins);
            }
            2 => {
                if at < s.len() {
                    s.remove(at);
                }
            }
            3 => {
                if at < s.len() {
                    let ins: Vec<char> = src.pick(BITS).chars().collect();
                    s.splice(at..at + 1, ins);
                }
            }
            _ => {
                let end = (at + src.usize(1, 8)).min(s.len());
                if src.bool() {
                    s.drain(at..end);
                } else {
                    let piece: Vec<char> = s[at..end].to_vec();
                    let to = src.usize(0, s.len());
                    s.splice(to..to, piece);
                }
            }
        }
    }
    s.into_iter().collect()
}
fn pos_of(text: &str, at: usize) -> (u32, u32) {
    let p = &text[..at];
    let start = p.rfind('\n').map_or(0, |i| i + 1);
    (p.matches('\n').count() as u32, p[start..].graphemes(true).count() as u32)
}
fn json_same(text: &str, want: &refjson::J, got: &tombi_json::ValueNode, path: &str) -> CaseResult {
    use tombi_json::ValueNode as N;
    let range = |span: (usize, usize), r: tombi_text::Range, what: &str| -> CaseResult {
        let (s, e) = (pos_of(text, span.0), pos_of(text, span.1));
        ensure!(
            (r.start.line, r.start.column) == s && (r.end.line, r.end.column) == e,
            format!("json-range:{what}"),
            "{path}: the {what} {:?} has range {r}, expected {s:?}..{e:?}", &text[span.0..span.1]
        );
        Ok(())
    };
    range(want.span, got.range(), "value")?;
    match (&want.v, got) {
        (JV::Null, N::Null(_)) => {}
        (JV::Bool(a), N::Bool(b)) if *a == b.value => {}
        (JV::Num(t), N::Number(n)) => {
            let f: f64 = t.parse().unwrap();
            if let Ok(i) = t.parse::<i64>() {
                ensure!(n.value.as_i64() == Some(i), "json-integer", "{path}: {t} was read as {:?}", n.value);
            } else if f.is_infinite() {
                // out of range of a double: the JSON specification leaves the precision open; it must stay huge
                ensure!(n.value.as_f64() == Some(f64::MAX.copysign(f)), "json-huge", "{path}: {t} was read as {:?}", n.value);
            } else {
                ensure!(n.value.as_f64() == Some(f), "json-number", "{path}: {t} was read as {:?}", n.value);
            }
        }
        (JV::Str(a), N::String(b)) => ensure!(*a == b.value, "json-string", "{path}: {} was read as {:?}", &text[want.span.0..want.span.1], b.value),
        (JV::Arr(a), N::Array(b)) => {
            ensure!(a.len() == b.items.len(), "json-array-length", "{path}: {} items were read as {}", a.len(), b.items.len());
            for (i, (x, y)) in a.iter().zip(b.items.iter()).enumerate() {
                json_same(text, x, y, &format!("{path}[{i}]"))?;
            }
        }
        (JV::Obj(a), N::Object(b)) => {
            ensure!(a.len() == b.properties.len(), "json-object-length", "{path}: {} members were read as {}", a.len(), b.properties.len());
            for (((k, ks), x), (k2, y)) in a.iter().zip(b.properties.iter()) {
                ensure!(*k == k2.value, "json-key", "{path}: key {k:?} was read as {:?}", k2.value);
                range(*ks, k2.range, "key")?;
                json_same(text, x, y, &format!("{path}.{k}"))?;
                ensure!(b.get(k.as_str()) == Some(y), "json-lookup", "{path}: looking {k:?} up finds something else");
            }
        }
        (w, g) => return fail("json-kind", format!("{path}: {w:?} was read as {g:?}")),
    }
    Ok(())
}
fn check_json(ctx: &mut Ctx, text: &str) -> CaseResult {
    ctx.attach("doc.json", text);
    let want = refjson::parse(text);
    // the two independent readers must agree before the code under test is judged
    if let Ok(w) = serde_json::from_str::<J>(text) {
        match &want {
            Ok(_) | Err(refjson::Bad::Open(_)) => {}
            Err(e) => return fail("oracle", format!("reference JSON reader rejects what serde_json reads as {w}: {e:?}")),
        }
    }
    match want {
        Err(refjson::Bad::Open(o)) => {
            ctx.label(format!("open: {o}"));
            let _ = tombi_json::parse(text);
            Ok(())
        }
        Err(refjson::Bad::Invalid(m)) => {
            ctx.label("invalid");
            ctx.nontrivial(&text);
            ensure!(tombi_json::parse(text).is_err(), format!("json-accept:{m}"), "invalid JSON was accepted ({m})");
            Ok(())
        }
        Ok(w) => {
            ctx.label("valid");
            ctx.label_if(!text.is_ascii(), "non-ascii");
            ctx.nontrivial(&text);
            ctx.sample(format!("{text:?}"));
            match tombi_json::parse(text) {
                Err(e) => fail("json-reject", format!("valid JSON was rejected: {e}")),
                Ok(n) => {
                    json_same(text, &w, &n, "$")?;
                    // the untracked value holds the same data
                    let v: tombi_json::Value = n.clone().into();
                    match tombi_json::from_str::<tombi_json::Value>(text) {
                        Ok(x) => ensure!(x == v, "json-value", "deserialized value {x} differs from the node's {v}"),
                        Err(e) => return fail("json-deserialize", format!("valid JSON does not deserialize: {e}")),
                    }
                    Ok(())
                }
            }
        }
    }
}
fn c17_valid(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = src.below(5);
    let text = format!("{}{}{}", json_ws(src), json_value(src, d), json_ws(src));
    check_json(ctx, &text)
}
fn c17_mutated(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = src.below(3);
    let text = json_value(src, d);
    let text = json_mutate(src, &text);
    check_json(ctx, &text)
}
fn c17_tokens(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    const T: &[&str] = &["0", "1", "-", "+", ".", "e", "E", "9", "00", "\"", "\\", "u", "n", "d83d", "a", "[", "]", "{", "}", ",", ":", " ", "\"a\"", "true", "null", "\r", "\n", "t"];
    let n = src.usize(1, 8);
    let text: String = (0..n).map(|_| *src.pick(T)).collect();
    let text = match src.below(4) {
        0 => format!("[{text}]"),
        1 => format!("{{\"a\":{text}}}"),
        2 => format!("\"{text}\""),
        _ => text,
    };
    check_json(ctx, &text)
}
fn c17_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    check_json(ctx, j["doc"].as_str().unwrap())
}

// ------------------------------------------------------------ C18
const OPS: &[&str] = &["===", ">=", "<=", "==", "!=", "~=", "~>", ">", "<", "=", "^", "~"];
fn vs(a: &str, b: &str) -> O {
    tombi_version_sort::version_sort(a, b)
}
fn vs_piece(src: &mut Src) -> String {
    match src.weighted(&[4, 4, 2, 2, 1, 1]) {
        0 => src.pick(&["a", "b", "ab", "z", "A", "Z", "v", "x", "é", "日", "😀", "alpha", "rc"]).to_string(),
        1 => {
            let n = *src.pick(&[1usize, 1, 1, 2, 2, 3, 4, 19, 20, 21, 25, 40]);
            (0..n).map(|_| char::from(b'0' + *src.pick(&[0u8, 1, 2, 9, 0, 1, 8, 5]))).collect()
        }
        2 => src.pick(&["_", "-", "__", "--", "_-"]).to_string(),
        3 => src.pick(&[".", " ", "/", "+", ",", "!", "[", "~x", "\u{301}"]).to_string(),
        4 => src.pick(OPS).to_string(),
        _ => src.pick(&["18446744073709551615", "18446744073709551616", "0018446744073709551615", "99999999999999999999"]).to_string(),
    }
}
fn vs_string(src: &mut Src) -> String {
    let n = src.usize(0, 5);
    (0..n).map(|_| vs_piece(src)).collect()
}
/// strings that share much of their text
fn vs_family(src: &mut Src, n: usize) -> Vec<String> {
    let base: Vec<String> = (0..src.usize(1, 4)).map(|_| vs_piece(src)).collect();
    (0..n)
        .map(|_| {
            if src.chance(1, 5) {
                return vs_string(src);
            }
            let mut b = base.clone();
            for _ in 0..src.usize(0, 2) {
                let i = src.usize(0, b.len().saturating_sub(1));
                if b.is_empty() {
                    b.push(vs_piece(src));
                    continue;
                }
                match src.below(4) {
                    0 => b[i] = vs_piece(src),
                    1 => b.insert(i, vs_piece(src)),
                    2 => {
                        b.remove(i);
                    }
                    _ => b[i] = format!("{}{}", src.pick(&["0", "00", "_", "-"]), b[i]),
                }
            }
            b.concat()
        })
        .collect()
}
fn check_order(ctx: &mut Ctx, v: &[String]) -> CaseResult {
    ctx.attach("strings.json", &serde_json::to_string(v).unwrap());
    for a in v {
        ensure!(vs(a, a) == O::Equal, "vs-reflexive", "{a:?} does not compare equal to itself");
        for b in v {
            let (x, y) = (vs(a, b), vs(b, a));
            ensure!(x == y.reverse(), "vs-antisymmetric", "{a:?} vs {b:?} is {x:?} but the other way round {y:?}");
        }
    }
    for a in v {
        for b in v {
            for c in v {
                let (ab, bc, ac) = (vs(a, b), vs(b, c), vs(a, c));
                if ab != O::Greater && bc != O::Greater {
                    let want = if ab == O::Equal && bc == O::Equal { O::Equal } else { O::Less };
                    ensure!(ac == want, "vs-transitive", "{a:?} {ab:?} {b:?} {bc:?} {c:?}, but {a:?} {ac:?} {c:?}");
                }
            }
        }
    }
    Ok(())
}
fn c18_laws(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = vs_family(src, 4);
    ctx.label_if(v.iter().any(|s| s.contains(|c: char| c.is_ascii_digit())), "numbers");
    ctx.label_if(v.iter().any(|s| OPS.iter().any(|o| s.contains(o))), "operators");
    ctx.nontrivial(&v);
    ctx.sample(format!("{v:?}"));
    check_order(ctx, &v)?;
    // sorting does not depend on the order of the input
    let mut x = v.clone();
    let mut y = v.clone();
    src.shuffle(&mut y);
    x.sort_by(|a, b| vs(a, b));
    y.sort_by(|a, b| vs(a, b));
    for (a, b) in x.iter().zip(&y) {
        ensure!(vs(a, b) == O::Equal, "vs-sort", "sorting two orders of the same strings gives {x:?} and {y:?}");
    }
    Ok(())
}
#[derive(Debug)]
enum Piece<'a> {
    Op(&'a str),
    Sep,
    Num(&'a str),
    Text(&'a str),
}
fn pieces(mut s: &str) -> Vec<Piece<'_>> {
    let mut out: Vec<Piece> = vec![];
    let op = |s: &str| OPS.iter().find(|o| s.starts_with(**o)).map(|o| o.len());
    while let Some(c) = s.chars().next() {
        let n = if let Some(n) = op(s) {
            out.push(Piece::Op(&s[..n]));
            n
        } else if c == '_' || c == '-' {
            out.push(Piece::Sep);
            1
        } else if c.is_ascii_digit() {
            let n = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
            out.push(Piece::Num(&s[..n]));
            n
        } else {
            let n = s.char_indices().find(|(i, c)| matches!(c, '_' | '-' | '0'..='9') || op(&s[*i..]).is_some()).map_or(s.len(), |x| x.0);
            out.push(Piece::Text(&s[..n]));
            n
        };
        s = &s[n..];
    }
    out
}
/// the version order, as documented
pub fn ref_version_cmp(a: &str, b: &str) -> O {
    let (a, b) = (pieces(a), pieces(b));
    let mut zeros = O::Equal;
    for (x, y) in a.iter().zip(&b) {
        let class = |p: &Piece| match p {
            Piece::Op(_) => 0,
            Piece::Sep => 1,
            _ => 2,
        };
        let o = class(x).cmp(&class(y)).then_with(|| match (x, y) {
            (Piece::Num(x), Piece::Num(y)) => num_cmp(x, y).then_with(|| {
                zeros = zeros.then(y.len().cmp(&x.len()));
                O::Equal
            }),
            (Piece::Sep, _) => O::Equal,
            (Piece::Op(x) | Piece::Num(x) | Piece::Text(x), Piece::Op(y) | Piece::Num(y) | Piece::Text(y)) => x.cmp(y),
            _ => unreachable!(),
        });
        if o != O::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len()).then(zeros)
}
fn c18_reference(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = vs_family(src, 3);
    ctx.attach("strings.json", &serde_json::to_string(&v).unwrap());
    for a in &v {
        for b in &v {
            let (want, got) = (ref_version_cmp(a, b), vs(a, b));
            if a != b && want != a.cmp(b) {
                ctx.nontrivial(&(a, b));
            }
            ensure!(got == want, "vs-reference", "{a:?} vs {b:?} is {got:?}, expected {want:?}: {:?} {:?}", pieces(a), pieces(b));
        }
    }
    Ok(())
}
fn num_cmp(a: &str, b: &str) -> O {
    let (a, b) = (a.trim_start_matches('0'), b.trim_start_matches('0'));
    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
}
fn check_vs_facts(ctx: &mut Ctx, prefix: &str, n1: &str, n2: &str, s1: &str, s2: &str) -> CaseResult {
    let (a, b) = (format!("{prefix}{n1}{s1}"), format!("{prefix}{n2}{s2}"));
    ctx.attach("strings.json", &serde_json::to_string(&[&a, &b]).unwrap());
    let want = num_cmp(n1, n2);
    if want != O::Equal {
        ensure!(vs(&a, &b) == want, "vs-number", "{a:?} vs {b:?} is {:?}, but the numbers compare {want:?}", vs(&a, &b));
    } else if n1.len() != n2.len() && s1 == s2 {
        let want = n2.len().cmp(&n1.len());
        ensure!(vs(&a, &b) == want, "vs-zeros", "{a:?} vs {b:?} is {:?}, expected {want:?}: more leading zeros first", vs(&a, &b));
    }
    Ok(())
}
fn c18_facts(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let not_digit = |s: String, front: bool| if front { s.trim_start_matches(|c: char| c.is_ascii_digit()).to_string() } else { s.trim_end_matches(|c: char| c.is_ascii_digit()).to_string() };
    match src.below(4) {
        0 | 1 => {
            let prefix = not_digit(vs_string(src), false);
            let num = |src: &mut Src| -> String {
                let n = *src.pick(&[1usize, 2, 3, 18, 19, 20, 21, 30, 60]);
                let z = *src.pick(&[0usize, 0, 0, 1, 2, 20]);
                "0".repeat(z) + &(0..n).map(|_| char::from(b'0' + *src.pick(&[0u8, 1, 9, 5, 7]))).collect::<String>()
            };
            let n1 = num(src);
            let n2 = match src.below(3) {
                0 => format!("0{n1}"),
                1 => {
                    let mut c: Vec<char> = n1.chars().collect();
                    let i = src.usize(0, c.len() - 1);
                    c[i] = char::from(b'0' + src.below(10) as u8);
                    c.into_iter().collect()
                }
                _ => num(src),
            };
            let s1 = not_digit(vs_string(src), true);
            let s2 = if src.bool() { s1.clone() } else { not_digit(vs_string(src), true) };
            ctx.label("numbers");
            ctx.nontrivial(&(&prefix, &n1, &n2, &s1, &s2));
            ctx.sample(format!("{prefix:?} + {n1}/{n2} + {s1:?}/{s2:?}"));
            check_vs_facts(ctx, &prefix, &n1, &n2, &s1, &s2)
        }
        2 => {
            // an operator sorts before anything else at the same place, and separators before the rest
            let prefix = not_digit(vs_string(src), false);
            let prefix = format!("{prefix}{}", src.pick(&["", "1", "_", "a7"]));
            let prefix = if prefix.ends_with(|c: char| c.is_ascii_digit() || c == '_') { prefix } else { String::new() };
            let class = |s: &str| if s.is_empty() { None } else if OPS.iter().any(|o| s.starts_with(o)) { Some(0) } else if s.starts_with(['_', '-']) { Some(1) } else { Some(2) };
            let (s1, s2) = (not_digit(vs_string(src), true), not_digit(vs_string(src), true));
            let (a, b) = (format!("{prefix}{s1}"), format!("{prefix}{s2}"));
            ctx.attach("strings.json", &serde_json::to_string(&[&a, &b]).unwrap());
            ctx.nontrivial(&(&a, &b));
            if let (Some(x), Some(y)) = (class(&s1), class(&s2))
                && x != y
            {
                ctx.label("operators and separators");
                ensure!(vs(&a, &b) == x.cmp(&y), "vs-class", "{a:?} vs {b:?} is {:?}", vs(&a, &b));
            }
            Ok(())
        }
        _ => {
            let plain = |src: &mut Src| -> String { (0..src.usize(0, 5)).map(|_| *src.pick(&["a", "b", "A", "Z", "z", " ", ".", "é", "e\u{301}", "日", "😀", "!", "{", "/"])).collect() };
            let (a, b) = (plain(src), plain(src));
            ctx.attach("strings.json", &serde_json::to_string(&[&a, &b]).unwrap());
            ctx.nontrivial(&(&a, &b));
            ctx.label("plain text");
            ensure!(vs(&a, &b) == a.cmp(&b), "vs-plain", "{a:?} vs {b:?} is {:?}", vs(&a, &b));
            Ok(())
        }
    }
}
fn c18_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    let s = |k: &str| j[k].as_str().unwrap_or("").to_string();
    check_vs_facts(ctx, &s("prefix"), &s("n1"), &s("n2"), &s("s1"), &s("s2"))
}

// ------------------------------------------------------------ C19
fn offset_minutes(o: tombi_date_time::TimeZoneOffset) -> i16 {
    match o {
        tombi_date_time::TimeZoneOffset::Z => 0,
        tombi_date_time::TimeZoneOffset::Custom { minutes } => minutes,
    }
}
type Fields = (Option<(u16, u8, u8)>, Option<(u8, u8, u8, u32)>, Option<i16>);
/// what each of the four parsers makes of a text: kind, fields, printed form
fn parsed(t: &str) -> Vec<(&'static str, Fields, String)> {
    use tombi_date_time as d;
    let mut out = vec![];
    if let Ok(x) = t.parse::<d::LocalDate>() {
        out.push(("local date", (Some((x.year(), x.month(), x.day())), None, None), x.to_string()));
    }
    if let Ok(x) = t.parse::<d::LocalTime>() {
        out.push(("local time", (None, Some((x.hour(), x.minute(), x.second(), x.nanosecond())), None), x.to_string()));
    }
    if let Ok(x) = t.parse::<d::LocalDateTime>() {
        out.push(("local date-time", (Some((x.year(), x.month(), x.day())), Some((x.hour(), x.minute(), x.second(), x.nanosecond())), None), x.to_string()));
    }
    if let Ok(x) = t.parse::<d::OffsetDateTime>() {
        out.push((
            "offset date-time",
            (Some((x.year(), x.month(), x.day())), Some((x.hour(), x.minute(), x.second(), x.nanosecond())), Some(offset_minutes(x.offset()))),
            x.to_string(),
        ));
    }
    out
}
fn kind_of(d: &Dt) -> &'static str {
    match (d.date.is_some(), d.time.is_some(), d.offset.is_some()) {
        (true, false, _) => "local date",
        (false, _, _) => "local time",
        (_, _, false) => "local date-time",
        _ => "offset date-time",
    }
}
fn check_dt(ctx: &mut Ctx, t: &str) -> CaseResult {
    ctx.attach("text.txt", t);
    let want = reftoml::parse_dt(t, Ver::V11);
    let got = parsed(t);
    match want {
        Err(m) => {
            ctx.label("invalid");
            ctx.nontrivial(&t);
            ensure!(got.is_empty(), format!("dt-accept:{m}"), "{t:?} is not valid ({m}) but was read as {:?}", got[0]);
        }
        Ok((_, Some(u))) => ctx.label(format!("open: {u}")),
        Ok((d, None)) => {
            ctx.label(kind_of(&d));
            ctx.nontrivial(&t);
            ctx.sample(t);
            ensure!(got.len() == 1, "dt-kinds", "{t:?} was read as {got:?}, expected one {}", kind_of(&d));
            let (kind, fields, text) = &got[0];
            ensure!(*kind == kind_of(&d), "dt-kind", "{t:?} was read as a {kind}");
            ensure!(*fields == (d.date, d.time, d.offset), "dt-fields", "{t:?} was read as {fields:?}");
            check_printed(ctx, kind, fields, text)?;
        }
    }
    Ok(())
}
fn check_printed(ctx: &mut Ctx, kind: &str, fields: &Fields, text: &str) -> CaseResult {
    ctx.attach("printed.txt", text);
    let again = parsed(text);
    ensure!(again.len() == 1 && again[0].0 == kind && again[0].1 == *fields, "dt-round-trip", "a {kind} with fields {fields:?} prints as {text:?}, which reads as {again:?}");
    ensure!(again[0].2 == text, "dt-print-stable", "{text:?} prints again as {:?}", again[0].2);
    match reftoml::parse_dt(text, Ver::V10) {
        Ok((p, _)) => ensure!((p.date, p.time, p.offset) == *fields, "dt-print-fields", "a {kind} with fields {fields:?} prints as {text:?}"),
        Err(m) => return fail("dt-print-invalid", format!("a {kind} with fields {fields:?} prints as {text:?}, which is not valid TOML ({m})")),
    }
    Ok(())
}
fn c19_valid(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = g::Cfg::new(*src.pick(&[Ver::V10, Ver::V11]));
    let t = g::datetime(src, &cfg);
    check_dt(ctx, &t)
}
fn c19_fields(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // near-valid numbers in every field
    let n = |hi: i64, src: &mut Src| -> String {
        match src.below(5) {
            0 => "0".repeat(2),
            1 => format!("{hi:02}"),
            2 => format!("{:02}", hi + 1),
            3 => format!("{:02}", hi - 1),
            _ => format!("{:02}", src.range(0, 99.min(hi + 3))),
        }
    };
    let y = match src.below(4) {
        0 => src.pick(&["1900", "2000", "2024", "2100", "0004", "9999", "0001", "0100", "0400", "2023"]).to_string(),
        _ => format!("{:04}", src.range(1, 9999)),
    };
    let m = n(12, src);
    let d = match src.below(3) {
        0 => src.pick(&["28", "29", "30", "31"]).to_string(),
        _ => n(31, src),
    };
    let date = format!("{y}-{m}-{d}");
    let mut time = format!("{}:{}", n(23, src), n(59, src));
    if src.chance(4, 5) {
        time += &format!(":{}", n(59, src));
        if src.bool() {
            let k = *src.pick(&[1usize, 2, 3, 6, 8, 9, 10, 12]);
            time.push('.');
            for _ in 0..k {
                time.push(char::from(b'0' + *src.pick(&[0u8, 0, 1, 9, 5])));
            }
        }
    }
    let off = match src.below(4) {
        0 => src.pick(&["Z", "z"]).to_string(),
        _ => format!("{}{}:{}", src.pick(&["+", "-"]), n(23, src), n(59, src)),
    };
    let t = match src.below(5) {
        0 => date,
        1 => time,
        2 => format!("{date}{}{time}", src.pick(&["T", "t", " "])),
        3 => format!("{date}{}{time}{off}", src.pick(&["T", "t", " "])),
        _ => format!("{time}{off}"),
    };
    check_dt(ctx, &t)
}
fn c19_mutated(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = g::Cfg::new(Ver::V11);
    let t = g::datetime(src, &cfg);
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..src.usize(1, 2) {
        let at = src.usize(0, c.len());
        let x = *src.pick(&['0', '1', '9', ':', '-', '+', 'T', 't', ' ', 'Z', 'z', '.', 'é', '٣', '_', '\u{2212}', ',', '\n']);
        match src.below(4) {
            0 => c.insert(at, x),
            1 if at < c.len() => {
                c.remove(at);
            }
            2 => c.truncate(at),
            _ if at < c.len() => c[at] = x,
            _ => c.push(x),
        }
    }
    let t: String = c.into_iter().collect();
    check_dt(ctx, &t)
}
/// values built from fields rather than from text
fn c19_built(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use tombi_date_time as d;
    let y = src.range(1, 9999) as u16;
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let m = src.range(1, 12) as u8;
    let max = match m {
        2 => 28 + leap as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    let day = if src.chance(1, 4) { max } else { src.range(1, max) } as u8;
    let (h, mi, s) = (src.range(0, 23) as u8, src.range(0, 59) as u8, src.range(0, 59) as u8);
    let ms = src.range(0, 999) as u32;
    let ns = match src.below(4) {
        0 => 0,
        1 => ms * 1_000_000,
        2 => src.range(0, 999) as u32,
        _ => src.range(0, 999_999_999) as u32,
    };
    let off = *src.pick(&[0i16, 1, -1, 59, -59, 60, -60, 90, -90, 1439, -1439, 540, -1380]);
    let zone = if src.chance(1, 5) { d::TimeZoneOffset::Z } else { d::TimeZoneOffset::Custom { minutes: off } };
    let off = offset_minutes(zone);
    let (date, time) = ((y, m, day), (h, mi, s, ns));
    ctx.nontrivial(&(date, time, off));
    check_printed(ctx, "local date", &(Some(date), None, None), &d::LocalDate::from_ymd(y, m, day).to_string())?;
    check_printed(ctx, "local time", &(None, Some(time), None), &d::LocalTime::from_hms_nano(h, mi, s, ns).to_string())?;
    check_printed(ctx, "local time", &(None, Some((h, mi, s, ms * 1_000_000)), None), &d::LocalTime::from_hms_milli(h, mi, s, ms).to_string())?;
    check_printed(ctx, "local time", &(None, Some((h, mi, s, 0)), None), &d::LocalTime::from_hms(h, mi, s).to_string())?;
    check_printed(ctx, "local date-time", &(Some(date), Some(time), None), &d::LocalDateTime::from_ymd_hms_nano(y, m, day, h, mi, s, ns).to_string())?;
    check_printed(ctx, "local date-time", &(Some(date), Some((h, mi, s, ms * 1_000_000)), None), &d::LocalDateTime::from_ymd_hms_milli(y, m, day, h, mi, s, ms).to_string())?;
    check_printed(ctx, "offset date-time", &(Some(date), Some((h, mi, s, 0)), Some(off)), &d::OffsetDateTime::from_ymd_hms(y, m, day, h, mi, s, zone).to_string())?;
    check_printed(ctx, "offset date-time", &(Some(date), Some((h, mi, s, ms * 1_000_000)), Some(off)), &d::OffsetDateTime::from_ymd_hms_milli(y, m, day, h, mi, s, ms, zone).to_string())?;
    Ok(())
}
fn c19_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    check_dt(ctx, j["doc"].as_str().unwrap())
}

// ------------------------------------------------------------ C20
use tombi_text::{EncodingKind, IntoLsp, LineIndex, Offset, Position, Range, RelativePosition, Span};
use tower_lsp::lsp_types as l;

fn c20_text(src: &mut Src) -> String {
    const P: &[&str] = &[
        "a", "key", " ", "=", "\n", "\r\n", "\n\n", "é", "e\u{301}", "日本", "😀", "👨‍👩‍👧", "🇯🇵", "\t", "\r", "\u{301}", "\u{200d}", "𝒳", "\u{600}", "\u{2028}", "\u{85}", "각", "ก็",
        "\u{feff}", "x y", "\r\r\n", "\n\r", "\u{b}", "\u{c}", "",
    ];
    let n = src.usize(0, 14);
    (0..n).map(|_| *src.pick(P)).collect()
}
fn units(k: EncodingKind, t: &str) -> u32 {
    match k {
        EncodingKind::Utf8 => t.len() as u32,
        EncodingKind::Utf16 => t.chars().map(|c| if (c as u32) > 0xFFFF { 2 } else { 1 }).sum(),
        EncodingKind::Utf32 => t.chars().count() as u32,
        _ => t.graphemes(true).count() as u32,
    }
}
fn check_positions(ctx: &mut Ctx, text: &str) -> CaseResult {
    ctx.attach("text.txt", text);
    ctx.nontrivial(&text);
    ctx.sample(format!("{text:?}"));
    ctx.label_if(text.contains("\r\n"), "crlf");
    ctx.label_if(text.chars().any(|c| c as u32 > 0xFFFF), "astral");
    ctx.label_if(text.graphemes(true).any(|g| g.chars().count() > 1 && g != "\r\n"), "clusters");
    // the lines of the text, by hand
    let mut lines: Vec<(usize, usize)> = vec![];
    let mut s = 0;
    for (i, c) in text.char_indices() {
        if c == '\n' {
            let e = if i > s && text.as_bytes()[i - 1] == b'\r' { i - 1 } else { i };
            lines.push((s, e));
            s = i + 1;
        }
    }
    lines.push((s, text.len()));
    for kind in [EncodingKind::Utf8, EncodingKind::Utf16, EncodingKind::Utf32] {
        let ix = LineIndex::new(text, kind);
        ensure!(ix.len() == lines.len() && !ix.is_empty(), "lines", "{} lines, expected {}", ix.len(), lines.len());
        for (n, ((s, e), sp)) in lines.iter().zip(ix.iter()).enumerate() {
            ensure!((usize::from(sp.start), usize::from(sp.end)) == (*s, *e), "line-span", "line {n} is {sp}, expected {s}..{e}");
            let line = &text[*s..*e];
            ensure!(ix.line_text(n as u32) == Some(line), "line-text", "line {n} is {:?}, expected {line:?}", ix.line_text(n as u32));
            ensure!(kind.measure(line) == units(kind, line), "measure", "{kind:?} of {line:?} is {}", kind.measure(line));
            let mut bounds: Vec<usize> = line.grapheme_indices(true).map(|(i, _)| i).collect();
            bounds.push(line.len());
            for (col, at) in bounds.iter().enumerate() {
                let p = Position::new(n as u32, col as u32);
                let lp = l::Position::new(n as u32, units(kind, &line[..*at]));
                let got: l::Position = p.into_lsp(&ix);
                ensure!(got == lp, "to-lsp", "{kind:?}: position {p} is {}:{} in the editor, expected {}:{}", got.line, got.character, lp.line, lp.character);
                let back: Position = lp.into_lsp(&ix);
                ensure!(back == p, "from-lsp", "{kind:?}: editor position {}:{} is {back}, expected {p}", lp.line, lp.character);
                // positions computed from the text's start are the same
                let rel = RelativePosition::of(&text[..s + at]);
                ensure!((rel.line, rel.column) == (p.line, p.column), "relative-of", "the text before byte {} ends at {}:{}, expected {p}", s + at, rel.line, rel.column);
                for (col2, _) in bounds.iter().enumerate().skip(col) {
                    let r = Range::new(p, Position::new(n as u32, col2 as u32));
                    let lr: l::Range = r.into_lsp(&ix);
                    let (a, b): (l::Position, l::Position) = (r.start.into_lsp(&ix), r.end.into_lsp(&ix));
                    ensure!(lr.start == a && lr.end == b, "range-to-lsp", "{kind:?}: range {r} converts to {lr:?}");
                    let back: Range = lr.into_lsp(&ix);
                    ensure!(back == r, "range-from-lsp", "{kind:?}: range {r} came back as {back}");
                }
            }
            // every editor column, on a boundary or not, goes to the cluster it is in
            for ch in 0..=units(kind, line) + 3 {
                let want = bounds.iter().filter(|b| units(kind, &line[..**b]) <= ch).count() as u32 - 1;
                let got: Position = l::Position::new(n as u32, ch).into_lsp(&ix);
                ensure!(got == Position::new(n as u32, want), "from-lsp-inside", "{kind:?}: editor position {n}:{ch} is {got}, expected column {want}");
            }
            let far: l::Position = Position::new(n as u32, 10_000).into_lsp(&ix);
            ensure!(far == l::Position::new(n as u32, units(kind, line)), "clamp", "{kind:?}: a position behind the end of line {n} is {far:?}");
        }
        let beyond: Position = l::Position::new(lines.len() as u32 + 2, 3).into_lsp(&ix);
        let last = lines.len() - 1;
        let end = Position::new(last as u32, text[lines[last].0..lines[last].1].graphemes(true).count() as u32);
        ensure!(beyond == end, "beyond", "an editor position behind the last line is {beyond}, not {end}");
    }
    // adding up pieces of the text gives the position of the whole, at cluster boundaries
    let bounds: Vec<usize> = text.grapheme_indices(true).map(|(i, _)| i).chain([text.len()]).collect();
    for a in &bounds {
        let p = Position::default() + RelativePosition::of(&text[..*a]);
        for b in bounds.iter().filter(|b| *b >= a) {
            let q = Position::default() + RelativePosition::of(&text[..*b]);
            let piece = &text[*a..*b];
            ensure!(p.add_text(piece) == q && p + RelativePosition::of(piece) == q, "add-text", "{p} plus {piece:?} is {}, expected {q}", p.add_text(piece));
            ensure!(p + (q - p) == q, "difference", "{p} + ({q} - {p}) is {}", p + (q - p));
            ensure!((p <= q) && (*a == *b) == (p == q), "position-order", "{p} and {q} for bytes {a} and {b}");
        }
    }
    Ok(())
}
fn c20_text_case(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let t = c20_text(src);
    check_positions(ctx, &t)
}
fn c20_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    check_positions(ctx, j["doc"].as_str().unwrap())
}
fn c20_sets(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    // spans as sets of offsets below 12, ranges as closed sets of positions on a 3 x 4 grid
    let two = |n: u32, src: &mut Src| {
        let (a, b) = (src.below(n), src.below(n));
        (a.min(b), a.max(b))
    };
    let (a, b) = (two(12, src), two(12, src));
    let o = src.below(13);
    ctx.nontrivial(&(a, b, o));
    let set = |x: (u32, u32)| -> Vec<u32> { (x.0..x.1).collect() };
    let (x, y) = (Span::new(a.0.into(), a.1.into()), Span::new(b.0.into(), b.1.into()));
    let of = Offset::new(o);
    ctx.sample(format!("{x} {y} {o}"));
    ensure!(x.len() as usize == set(a).len() && x.is_empty() == set(a).is_empty(), "span-len", "{x} has length {}", x.len());
    ensure!(x.contains(of) == set(a).contains(&o), "span-contains", "{x} contains {o}: {}", x.contains(of));
    ensure!(x.contains_inclusive(of) == (a.0..=a.1).contains(&o), "span-contains-inclusive", "{x} contains {o} inclusively: {}", x.contains_inclusive(of));
    ensure!(x.contains_span(y) == (a.0 <= b.0 && b.1 <= a.1), "span-contains-span", "{x} contains {y}: {}", x.contains_span(y));
    if !y.is_empty() {
        ensure!(x.contains_span(y) == set(b).iter().all(|i| set(a).contains(i)), "span-contains-span", "{x} contains {y}: {}", x.contains_span(y));
    }
    let common: Vec<u32> = set(a).into_iter().filter(|i| set(b).contains(i)).collect();
    match x.intersect(y) {
        Some(i) => {
            let got: Vec<u32> = (u32::from(i.start)..u32::from(i.end)).collect();
            ensure!(got == common, "span-intersect", "{x} and {y} intersect in {i}");
        }
        None => ensure!(common.is_empty() && (a.1 < b.0 || b.1 < a.0), "span-intersect", "{x} and {y} do not intersect"),
    }
    ensure!(x.intersect(y) == y.intersect(x), "span-intersect-symmetric", "{x} and {y} intersect differently the other way round");
    let c = x.cover(y);
    ensure!((u32::from(c.start), u32::from(c.end)) == (a.0.min(b.0), a.1.max(b.1)), "span-cover", "{x} and {y} are covered by {c}");
    let c = x.cover_offset(of);
    ensure!((u32::from(c.start), u32::from(c.end)) == (a.0.min(o), a.1.max(o)), "span-cover-offset", "{x} and {o} are covered by {c}");
    let ord = if a.1 <= b.0 { O::Less } else if b.1 <= a.0 { O::Greater } else { O::Equal };
    ensure!(x.ordering(y) == ord, "span-ordering", "{x} is {:?} than {y}", x.ordering(y));
    ensure!((x == y) == (a == b), "span-eq", "{x} == {y}: {}", x == y);
    let moved = x + of;
    ensure!((u32::from(moved.start), u32::from(moved.end)) == (a.0 + o, a.1 + o) && moved - of == x, "span-add", "{x} moved by {o} is {moved}");
    ensure!(x.checked_sub(of).is_some() == (o <= a.0), "span-sub", "{x} moved back by {o} is {:?}", x.checked_sub(of));
    ensure!(x.checked_add(Offset::MAX).is_some() == (a == (0, 0)), "span-overflow", "{x} moved by the maximum is {:?}", x.checked_add(Offset::MAX));
    ensure!(Span::at(x.start, x.len()) == x && Span::empty(of).is_empty(), "span-at", "{x} rebuilt is {}", Span::at(x.start, x.len()));
    ensure!((x.start < y.start) == (a.0 < b.0) && (x.start == y.start) == (a.0 == b.0), "offset-order", "{:?} {:?}", x.start, y.start);

    let pos = |i: u32| Position::new(i / 4, i % 4);
    let (p, q) = (Range::new(pos(a.0), pos(a.1)), Range::new(pos(b.0), pos(b.1)));
    let z = pos(o);
    ensure!(p.contains(z) == (a.0..=a.1).contains(&o), "range-contains", "{p} contains {z}: {}", p.contains(z));
    ensure!(p.intersects(q) == (a.0..=a.1).any(|i| (b.0..=b.1).contains(&i)), "range-intersects", "{p} intersects {q}: {}", p.intersects(q));
    ensure!(p.is_empty() == (a.0 == a.1) && Range::at(z) == Range::new(z, z), "range-empty", "{p} is empty: {}", p.is_empty());
    let mut r = p;
    r += q;
    ensure!(p + q == r && r == Range::new(pos(a.0.min(b.0)), pos(a.1.max(b.1))), "range-cover", "{p} and {q} are covered by {}", p + q);
    ensure!(p.cmp(&q) == a.cmp(&b) && (p == q) == (a == b), "range-order", "{p} is {:?} than {q}", p.cmp(&q));
    ensure!(pos(a.0).cmp(&pos(b.0)) == a.0.cmp(&b.0), "position-order", "{} is {:?} than {}", pos(a.0), pos(a.0).cmp(&pos(b.0)), pos(b.0));
    let back = Range::new(pos(a.1), pos(a.0));
    ensure!(back.start <= back.end, "range-invariant", "{back} starts after its end");
    let rel = RelativePosition::from((a.0 / 4, b.0 % 4));
    let mut m = z;
    m += rel;
    ensure!(m == z + rel && m.line == z.line + rel.line && m.column == if rel.line == 0 { z.column + rel.column } else { rel.column }, "position-add", "{z} + {rel:?} is {m}");
    let mut r = p;
    r += rel;
    ensure!(r.start == p.start && r.end == p.end + rel, "range-grow", "{p} grown by {rel:?} is {r}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let s = |name, quick, thorough, case| Stream { name, quick, thorough, case };
    vec![
        Prop {
            id: "C17",
            rule: "a text with a definite verdict from the reference JSON reader; distinct by text",
            assumptions: &["the reference reader in harness/core/src/refjson.rs (cross-checked against serde_json on every case) is RFC 8259", "trailing commas, duplicate keys, lone surrogates and nesting deeper than 100 are left open"],
            streams: vec![s("valid", 500_000, 20_000_000, c17_valid), s("mutated", 800_000, 30_000_000, c17_mutated), s("tokens", 800_000, 30_000_000, c17_tokens)],
            probe: Some(c17_probe),
            min_nontrivial: 500,
        },
        Prop {
            id: "C18",
            rule: "any family of strings; distinct by the strings",
            assumptions: &["the order of numbers, leading zeros, operators and separators is that of the crate's documentation and tests"],
            streams: vec![s("laws", 500_000, 10_000_000, c18_laws), s("reference", 300_000, 10_000_000, c18_reference), s("facts", 1_500_000, 40_000_000, c18_facts)],
            probe: Some(c18_probe),
            min_nontrivial: 500,
        },
        Prop {
            id: "C19",
            rule: "a text with a definite verdict from the reference reader, or a value built from valid fields; distinct by text or fields",
            assumptions: &["the date-time rules of harness/core/src/reftoml.rs (TOML v1.1.0: seconds are optional) are the specification; leap seconds and year 0 are left open"],
            streams: vec![
                s("valid", 500_000, 20_000_000, c19_valid),
                s("fields", 1_500_000, 40_000_000, c19_fields),
                s("mutated", 1_500_000, 40_000_000, c19_mutated),
                s("built", 500_000, 10_000_000, c19_built),
            ],
            probe: Some(c19_probe),
            min_nontrivial: 500,
        },
        Prop {
            id: "C20",
            rule: "any text with all its positions, or a pair of spans and ranges; distinct by text or spans",
            assumptions: &["lines end at LF or CRLF, columns count extended grapheme clusters of the unicode-segmentation crate"],
            streams: vec![s("text", 120_000, 3_000_000, c20_text_case), s("sets", 1_000_000, 10_000_000, c20_sets)],
            probe: Some(c20_probe),
            min_nontrivial: 500,
        },
    ]
}
