//! C16: serde_tombi serialises to valid TOML that means the same, and reads what documents mean
use crate::engine::*;
use crate::ensure;
use crate::gentoml as g;
use crate::reftoml::{self, Dt, Tbl, V, Ver};
use crate::tom;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use tombi_date_time as td;

/// any tree of values
#[derive(Clone, Debug)]
struct Tree(V);
fn dt_text(d: &Dt) -> String {
    let mut s = String::new();
    if let Some((y, m, d)) = d.date {
        s += &format!("{y:04}-{m:02}-{d:02}");
    }
    if let Some((h, m, sec, n)) = d.time {
        if d.date.is_some() {
            s.push('T');
        }
        s += &format!("{h:02}:{m:02}:{sec:02}");
        if n > 0 {
            s += format!(".{n:09}").trim_end_matches('0');
        }
    }
    match d.offset {
        Some(0) => s.push('Z'),
        Some(o) => s += &format!("{}{:02}:{:02}", if o < 0 { '-' } else { '+' }, o.abs() / 60, o.abs() % 60),
        None => {}
    }
    s
}
impl Serialize for Tree {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeMap, SerializeSeq};
        match &self.0 {
            V::Bool(b) => s.serialize_bool(*b),
            V::Int(i) => s.serialize_i64(*i),
            V::Float(f) => s.serialize_f64(*f),
            V::Str(t) => s.serialize_str(t),
            V::Dt(d) => {
                let t = dt_text(d);
                let e = |_| S::Error::custom("date-time");
                match (d.date.is_some(), d.time.is_some(), d.offset.is_some()) {
                    (true, true, true) => t.parse::<td::OffsetDateTime>().map_err(|_| e(()))?.serialize(s),
                    (true, true, false) => t.parse::<td::LocalDateTime>().map_err(|_| e(()))?.serialize(s),
                    (true, false, _) => t.parse::<td::LocalDate>().map_err(|_| e(()))?.serialize(s),
                    _ => t.parse::<td::LocalTime>().map_err(|_| e(()))?.serialize(s),
                }
            }
            V::Arr(a) => {
                let mut q = s.serialize_seq(Some(a.len()))?;
                for v in a {
                    q.serialize_element(&Tree(v.clone()))?;
                }
                q.end()
            }
            V::Tbl(t) => {
                let mut q = s.serialize_map(Some(t.len()))?;
                for (k, v) in t {
                    q.serialize_entry(k, &Tree(v.clone()))?;
                }
                q.end()
            }
        }
    }
}
impl<'de> Deserialize<'de> for Tree {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Tree, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = Tree;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("any value")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Tree, E> {
                Ok(Tree(V::Bool(v)))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Tree, E> {
                Ok(Tree(V::Int(v)))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Tree, E> {
                Ok(Tree(V::Float(v)))
            }
            fn visit_str<E>(self, v: &str) -> Result<Tree, E> {
                Ok(Tree(V::Str(v.into())))
            }
            fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<Tree, D::Error> {
                let s = String::deserialize(d)?;
                let s = s.replacen(' ', "T", 1);
                match reftoml::parse_dt(&s, Ver::V11) {
                    Ok((d, _)) => Ok(Tree(V::Dt(d))),
                    Err(e) => Err(serde::de::Error::custom(format!("{s}: {e}"))),
                }
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element::<Tree>()? {
                    v.push(x.0);
                }
                Ok(Tree(V::Arr(v)))
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
                let mut v = vec![];
                while let Some((k, x)) = a.next_entry::<String, Tree>()? {
                    v.push((k, x.0));
                }
                Ok(Tree(V::Tbl(v)))
            }
        }
        d.deserialize_any(Vis)
    }
}

const CHARS: &[&str] = &[
    "a", "b", "key", " ", ".", "-", "_", "1", "\"", "'", "\\", "\n", "\t", "\r", "\r\n", "\0", "\u{7}", "\u{8}", "\u{b}", "\u{c}",
    "\u{1b}", "\u{1f}", "\u{7f}", "\u{80}", "\u{9f}", "é", "日", "😀", "\u{2028}", "\u{feff}", "#", "=", "[", "]", "${x}", "\"\"\"", "'''", "\\u0041", "\\n",
    "true", "+", "{", "}", ",",
];
fn text(src: &mut Src) -> String {
    let n = src.usize(0, 5);
    let simple = src.bool();
    (0..n).map(|_| if simple { CHARS[src.below(8) as usize] } else { *src.pick(CHARS) }).collect()
}
fn float(src: &mut Src) -> f64 {
    match src.below(6) {
        0 => src.range(-3, 3) as f64,
        1 => src.range(-1000, 1000) as f64 / 8.0,
        2 => *src.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e16, 1e21, 1e300, 0.1, 1e-7, 123456789012345680.0]),
        3 => f64::from_bits(src.u64()),
        4 => src.range(-100000, 100000) as f64 * 10f64.powi(src.range(-30, 30) as i32),
        _ => f32::from_bits(src.u64() as u32) as f64,
    }
}
fn int(src: &mut Src) -> i64 {
    match src.below(3) {
        0 => src.range(-10, 10),
        1 => *src.pick(&[i64::MAX, i64::MIN, 0, -1, i32::MAX as i64 + 1, 1 << 53, (1 << 53) + 1]),
        _ => src.u64() as i64,
    }
}
fn dt(src: &mut Src, kind: u32) -> Dt {
    let date = Some((src.usize(0, 9999) as u16, src.usize(1, 12) as u8, src.usize(1, 28) as u8));
    let nano = *src.pick(&[0u32, 0, 1, 500_000_000, 999_999_999, 120_000]);
    let time = Some((src.below(24) as u8, src.below(60) as u8, src.below(60) as u8, nano));
    match kind {
        0 => Dt { date, time, offset: Some(*src.pick(&[0i16, 60, -60, 330, -30, 1439, -1439, 1])) },
        1 => Dt { date, time, offset: None },
        2 => Dt { date, time: None, offset: None },
        _ => Dt { date: None, time, offset: None },
    }
}
fn value(src: &mut Src, depth: u32) -> V {
    let deep = depth > 0;
    match src.weighted(&[3, 2, 2, 3, 2, if deep { 4 } else { 0 }, if deep { 5 } else { 0 }]) {
        0 => V::Int(int(src)),
        1 => V::Bool(src.bool()),
        2 => V::Float(float(src)),
        3 => V::Str(text(src)),
        4 => {
            let k = src.below(4);
            V::Dt(dt(src, k))
        }
        5 => {
            let n = src.usize(0, 3);
            if src.bool() {
                // arrays of tables
                V::Arr((0..n).map(|_| V::Tbl(table(src, depth - 1))).collect())
            } else {
                V::Arr((0..n).map(|_| value(src, depth - 1)).collect())
            }
        }
        _ => V::Tbl(table(src, depth - 1)),
    }
}
fn table(src: &mut Src, depth: u32) -> Tbl {
    let n = src.usize(0, 4);
    let mut t: Tbl = vec![];
    for _ in 0..n {
        let k = if src.chance(1, 3) { text(src) } else { src.pick(g::BARE).to_string() };
        if t.iter().any(|e| e.0 == k) {
            continue;
        }
        t.push((k, value(src, depth)));
    }
    t
}
fn ser<T: Serialize>(ctx: &Ctx, v: &T) -> Result<String, String> {
    let store = tom::store();
    let s = serde_tombi::Serializer::builder().schema_store(&store).build();
    ctx.block_on(s.to_string_async(v)).map_err(|e| e.to_string())
}
fn de<T: serde::de::DeserializeOwned>(ctx: &Ctx, text: &str) -> Result<T, String> {
    let store = tom::store();
    let d = serde_tombi::Deserializer::builder().schema_store(&store).build();
    ctx.block_on(d.from_str_async::<T>(text)).map_err(|e| e.to_string())
}
fn ser_tree(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let depth = 1 + src.below(4);
    let v = table(src, depth);
    check_tree(v, ctx)
}
fn check_tree(v: Tbl, ctx: &mut Ctx) -> CaseResult {
    ctx.attach("value", &format!("{v:#?}"));
    let out = match ser(ctx, &Tree(V::Tbl(v.clone()))) {
        Ok(o) => o,
        Err(e) => return fail("serialise-error", format!("serialising fails: {e}")),
    };
    ctx.attach("out.toml", &out);
    ctx.sample(format!("{v:?} -> {out:?}"));
    if v.iter().any(|e| matches!(e.1, V::Arr(_) | V::Tbl(_))) {
        ctx.nontrivial(&out);
    }
    match reftoml::parse_tbl(&out, Ver::V10) {
        Ok(t) => {
            if let Some(d) = reftoml::diff_tbl(&v, &t, false, "") {
                return fail("text-data", format!("value vs what the text means: {d}"));
            }
        }
        // such as the year 0
        Err(reftoml::Bad::Unspecified(_)) => ctx.label("the text's validity is unspecified"),
        Err(e) => return fail("invalid-toml", format!("the text is not valid TOML: {e:?}")),
    }
    match de::<Tree>(ctx, &out) {
        Ok(Tree(V::Tbl(t))) => {
            if let Some(d) = reftoml::diff_tbl(&v, &t, false, "") {
                return fail("read-back", format!("value vs what is read back: {d}"));
            }
        }
        Ok(o) => return fail("read-back", format!("read back as {o:?}")),
        Err(e) => return fail("read-back-error", format!("reading back fails: {e}")),
    }
    Ok(())
}
/// every valid document is read as what it means
fn de_doc(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = g::Cfg::random(src);
    cfg.ver = Ver::V10;
    let doc = g::document(src, &cfg);
    ctx.attach("doc.toml", &doc);
    let Ok(want) = reftoml::parse_tbl(&doc, Ver::V10) else {
        ctx.label("skipped: not a valid document");
        return Ok(());
    };
    if want.len() > 1 {
        ctx.nontrivial(&doc);
    }
    match de::<Tree>(ctx, &doc) {
        Ok(Tree(V::Tbl(t))) => {
            if let Some(d) = reftoml::diff_tbl(&want, &t, true, "") {
                return fail("document-data", format!("specification vs what is read: {d}"));
            }
            // and writing what was read keeps it
            check_tree(t, ctx)
        }
        Ok(o) => fail("document-data", format!("read as {o:?}")),
        Err(e) => fail("document-error", format!("reading a valid document fails: {e}")),
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum Unit {
    A,
    #[serde(rename = "b c")]
    B,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum Data {
    Unit,
    New(i32),
    NewVec(Vec<String>),
    NewMap(BTreeMap<String, i64>),
    Two(i32, String),
    Fields { x: f64, y: Option<bool> },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Wrap(i64);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct WrapDate(td::LocalDate);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Pair(u8, String);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Inner {
    name: String,
    n: Option<u32>,
    tags: Vec<String>,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum OneOrMany {
    One(String),
    Many(Vec<String>),
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "type")]
enum Tagged {
    First { a: i64 },
    Second { b: String },
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Big {
    b: bool,
    i8: i8,
    u16: u16,
    i32: i32,
    i64: i64,
    u64: u64,
    f32: f32,
    f64: f64,
    c: char,
    s: String,
    opt: Option<String>,
    unit: Unit,
    data: Data,
    datas: Vec<Data>,
    wrap: Wrap,
    wrap_date: WrapDate,
    pair: Pair,
    tuple: (bool, String, f64),
    ints: Vec<i64>,
    nested: Vec<Vec<i64>>,
    inner: Inner,
    opt_inner: Option<Inner>,
    list: Vec<Inner>,
    lists: Vec<Vec<Inner>>,
    map: BTreeMap<String, Inner>,
    maps: BTreeMap<String, Vec<BTreeMap<String, u8>>>,
    untagged: OneOrMany,
    tagged: Tagged,
    odt: td::OffsetDateTime,
    ldt: td::LocalDateTime,
    ld: td::LocalDate,
    lt: td::LocalTime,
    dates: Vec<td::LocalDate>,
}
fn many<T>(src: &mut Src, max: usize, f: impl Fn(&mut Src) -> T) -> Vec<T> {
    let n = src.usize(0, max);
    (0..n).map(|_| f(src)).collect()
}
fn opt<T>(src: &mut Src, f: impl Fn(&mut Src) -> T) -> Option<T> {
    if src.bool() { Some(f(src)) } else { None }
}
fn inner(src: &mut Src) -> Inner {
    Inner { name: text(src), n: opt(src, |s| s.u64() as u32), tags: many(src, 2, text) }
}
fn finite(src: &mut Src) -> f64 {
    let f = float(src);
    if f.is_nan() { 0.5 } else { f }
}
fn data(src: &mut Src) -> Data {
    match src.below(6) {
        0 => Data::Unit,
        1 => Data::New(src.range(-5, 5) as i32),
        2 => Data::NewVec(many(src, 2, text)),
        3 => Data::NewMap(many(src, 2, |s| (text(s), int(s))).into_iter().collect()),
        4 => Data::Two(src.range(-5, 5) as i32, text(src)),
        _ => Data::Fields { x: finite(src), y: opt(src, |s| s.bool()) },
    }
}
fn dtp<T: std::str::FromStr>(src: &mut Src, kind: u32) -> T {
    match dt_text(&dt(src, kind)).parse::<T>() {
        Ok(t) => t,
        Err(_) => panic!("a valid date-time does not parse"),
    }
}
fn big(src: &mut Src) -> Big {
    Big {
        b: src.bool(),
        i8: src.u64() as i8,
        u16: src.u64() as u16,
        i32: src.u64() as i32,
        i64: int(src),
        u64: (int(src) as u64) >> 1,
        f32: *src.pick(&[0.0f32, 1.0, 0.1, -2.5, 1e10, f32::MAX, f32::MIN_POSITIVE, 16777216.0, f32::INFINITY]),
        f64: finite(src),
        c: *src.pick(&['a', '"', '\\', '\n', '\'', 'é', '\0', '😀']),
        s: text(src),
        opt: opt(src, text),
        unit: if src.bool() { Unit::B } else { Unit::A },
        data: data(src),
        datas: many(src, 3, data),
        wrap: Wrap(int(src)),
        wrap_date: WrapDate(dtp(src, 2)),
        pair: Pair(src.u64() as u8, text(src)),
        tuple: (src.bool(), text(src), finite(src)),
        ints: many(src, 3, int),
        nested: many(src, 3, |s| many(s, 3, int)),
        inner: inner(src),
        opt_inner: opt(src, inner),
        list: many(src, 3, inner),
        lists: many(src, 2, |s| many(s, 2, inner)),
        map: many(src, 2, |s| (text(s), inner(s))).into_iter().collect(),
        maps: many(src, 2, |s| (text(s), many(s, 2, |s| many(s, 2, |s| (text(s), s.u64() as u8)).into_iter().collect()))).into_iter().collect(),
        untagged: if src.bool() { OneOrMany::Many(many(src, 2, text)) } else { OneOrMany::One(text(src)) },
        tagged: if src.bool() { Tagged::Second { b: text(src) } } else { Tagged::First { a: int(src) } },
        odt: dtp(src, 0),
        ldt: dtp(src, 1),
        ld: dtp(src, 2),
        lt: dtp(src, 3),
        dates: many(src, 2, |s| dtp(s, 2)),
    }
}
fn ser_struct(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let v = big(src);
    ctx.attach("value", &format!("{v:#?}"));
    let out = match ser(ctx, &v) {
        Ok(o) => o,
        Err(e) => return fail("struct-serialise-error", format!("serialising fails: {e}")),
    };
    ctx.attach("out.toml", &out);
    ctx.nontrivial(&out);
    ctx.sample(out.clone());
    if let Err(e @ reftoml::Bad::Invalid(..)) = reftoml::parse_tbl(&out, Ver::V10) {
        return fail("struct-invalid-toml", format!("the text is not valid TOML: {e:?}"));
    }
    match de::<Big>(ctx, &out) {
        Ok(w) => {
            let (a, b) = (format!("{v:?}"), format!("{w:?}"));
            ensure!(v == w, "struct-read-back", "wrote {a}\nread {b}");
        }
        Err(e) => return fail("struct-read-back-error", format!("reading back fails: {e}")),
    }
    Ok(())
}
/// numbers that TOML cannot hold are refused, not changed
fn ser_range(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match src.below(3) {
        0 => u64::MAX - src.below(5) as u64,
        1 => i64::MAX as u64 + src.below(4) as u64,
        _ => src.u64(),
    };
    ctx.attach("value", &n.to_string());
    ctx.nontrivial(&n);
    check_u64(n, ctx)?;
    range_targets(src, ctx)
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct N {
    n: u64,
}
fn check_u64(n: u64, ctx: &Ctx) -> CaseResult {
    match ser(ctx, &N { n }) {
        Ok(out) => {
            ensure!(n <= i64::MAX as u64, "u64-changed", "{n} is serialised as {out:?}");
            let back = de::<N>(ctx, &out);
            ensure!(back == Ok(N { n }), "u64-read-back", "{n} is read back as {back:?}");
        }
        Err(e) => ensure!(n > i64::MAX as u64, "u64-refused", "{n} is refused: {e}"),
    }
    Ok(())
}
/// what does not fit the target is refused
fn range_targets(src: &mut Src, ctx: &Ctx) -> CaseResult {
    let i = int(src);
    let out = format!("n = {i}");
    #[derive(Deserialize, Debug)]
    struct M<T> {
        n: T,
    }
    macro_rules! fits {
        ($($t:ty),*) => {$(
            let got = de::<M<$t>>(ctx, &out).ok().map(|m| m.n as i128);
            let want = <$t>::try_from(i).ok().map(|x| x as i128);
            ensure!(got == want, "integer-target", "{i} read as {} gives {got:?}", stringify!($t));
        )*};
    }
    fits!(i8, i16, i32, i64, u8, u16, u32, u64);
    Ok(())
}

fn probe(j: &serde_json::Value, ctx: &mut Ctx) -> CaseResult {
    if let Some(n) = j["u64"].as_u64() {
        return check_u64(n, ctx);
    }
    if let Some(n) = j["variant"].as_i64() {
        let v = BTreeMap::from([("e".to_string(), Data::New(n as i32))]);
        let out = ser(ctx, &v).map_err(|m| Fail { sig: "variant".into(), msg: m, files: vec![] })?;
        let back = de::<BTreeMap<String, Data>>(ctx, &out);
        ensure!(back == Ok(v), "variant", "{out:?} is read back as {back:?}");
        return Ok(());
    }
    match reftoml::parse_tbl(j["doc"].as_str().unwrap(), Ver::V10) {
        Ok(t) => check_tree(t, ctx),
        Err(e) => fail("probe", format!("{e:?}")),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "the value or document has nested tables or arrays (streams tree, document), or is a full struct (stream struct), or a number (stream range)",
        assumptions: &["string line endings CRLF and LF are compared as equal inside strings"],
        streams: vec![
            Stream { name: "tree", quick: 12_000, thorough: 600_000, case: ser_tree },
            Stream { name: "document", quick: 4_000, thorough: 200_000, case: de_doc },
            Stream { name: "struct", quick: 2_000, thorough: 100_000, case: ser_struct },
            Stream { name: "range", quick: 2_000, thorough: 50_000, case: ser_range },
        ],
        probe: Some(probe),
        min_nontrivial: 300,
    }]
}
