//! Independent JSON Schema evaluator (draft-07, 2019-09, 2020-12) over TOML values, written from the
//! specification. TOML integers are JSON Schema integers, TOML floats are numbers but no integers, and a date-time is
//! a string of its own format.
use crate::reftoml::V;
use serde_json::{Map, Value as S};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Dialect {
    D7,
    D2019,
    D2020,
}
impl Dialect {
    pub fn uri(self) -> &'static str {
        match self {
            Dialect::D7 => "http://json-schema.org/draft-07/schema#",
            Dialect::D2019 => "https://json-schema.org/draft/2019-09/schema",
            Dialect::D2020 => "https://json-schema.org/draft/2020-12/schema",
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Ann {
    pub props: BTreeSet<String>,
    pub items: BTreeSet<usize>,
}
impl Ann {
    fn merge(&mut self, o: Ann) {
        self.props.extend(o.props);
        self.items.extend(o.items);
    }
}

pub struct Ref<'a> {
    /// uri -> schema document
    pub docs: BTreeMap<String, &'a S>,
    pub dialect: Dialect,
    fuel: std::cell::Cell<u64>,
    /// (path of the instance, keyword) of every failing keyword evaluated outside of a choice
    pub fails: std::cell::RefCell<Vec<String>>,
}
pub type Eval = Result<Ann, String>;

impl<'a> Ref<'a> {
    pub fn new(docs: &[(&str, &'a S)], dialect: Dialect) -> Self {
        Ref { docs: docs.iter().map(|(u, s)| (u.to_string(), *s)).collect(), dialect, fuel: std::cell::Cell::new(2_000_000), fails: Default::default() }
    }
    /// finds the schema a reference names
    pub fn resolve(&self, base: &str, r: &str) -> Option<(String, &'a S)> {
        let (u, frag) = r.split_once('#').unwrap_or((r, ""));
        let uri = if u.is_empty() { base.to_string() } else { join(base, u) };
        let doc = *self.docs.get(&uri)?;
        if frag.is_empty() {
            return Some((uri, doc));
        }
        if let Some(p) = frag.strip_prefix('/') {
            let mut cur = doc;
            for t in p.split('/') {
                let t = pct(t).replace("~1", "/").replace("~0", "~");
                cur = match cur {
                    S::Object(o) => o.get(&t)?,
                    S::Array(a) => a.get(t.parse::<usize>().ok()?)?,
                    _ => return None,
                };
            }
            return Some((uri, cur));
        }
        find_anchor(doc, frag).map(|s| (uri, s))
    }
    /// Ok with the evaluated locations if `v` satisfies `s`
    pub fn eval(&self, base: &str, s: &'a S, v: &V, at: &str) -> Eval {
        let f = self.fuel.get();
        if f == 0 {
            return Err("out of fuel".into());
        }
        self.fuel.set(f - 1);
        let o = match s {
            S::Bool(true) => return Ok(Ann::default()),
            S::Bool(false) => return Err(format!("{at}: false")),
            S::Object(o) => o,
            _ => return Ok(Ann::default()),
        };
        let mut ann = Ann::default();
        let mut bad: Option<String> = None;
        macro_rules! bad {
            ($($t:tt)*) => { if bad.is_none() { bad = Some(format!("{at}: {}", format!($($t)*))); } };
        }
        if let Some(S::String(r)) = o.get("$ref") {
            match self.resolve(base, r) {
                Some((b, t)) => match self.eval(&b, t, v, at) {
                    Ok(a) => ann.merge(a),
                    Err(e) => bad!("$ref {r}: {e}"),
                },
                None => bad!("unresolved {r}"),
            }
            if self.dialect == Dialect::D7 {
                return bad.map_or(Ok(ann), Err);
            }
        }
        if let Some(t) = o.get("type") {
            let ok = match t {
                S::String(t) => self.is_type(v, t, o),
                S::Array(ts) => ts.iter().any(|t| t.as_str().is_some_and(|t| self.is_type(v, t, o))),
                _ => true,
            };
            if !ok {
                bad!("type {t}");
            }
        }
        if let Some(c) = o.get("const")
            && !eq(v, c)
        {
            bad!("const {c}");
        }
        if let Some(S::Array(e)) = o.get("enum")
            && !e.iter().any(|c| eq(v, c))
        {
            bad!("enum");
        }
        let num = match v {
            V::Int(i) => Some(N::I(*i)),
            V::Float(f) => Some(N::F(*f)),
            _ => None,
        };
        if let Some(n) = num {
            for (k, ok) in [
                ("minimum", &(|c: std::cmp::Ordering| c.is_ge()) as &dyn Fn(std::cmp::Ordering) -> bool),
                ("maximum", &|c: std::cmp::Ordering| c.is_le()),
                ("exclusiveMinimum", &|c: std::cmp::Ordering| c.is_gt()),
                ("exclusiveMaximum", &|c: std::cmp::Ordering| c.is_lt()),
            ] {
                if let Some(l) = o.get(k).and_then(N::of) {
                    if !n.cmp(l).is_some_and(ok) {
                        bad!("{k}");
                    }
                }
            }
            if let Some(m) = o.get("multipleOf").and_then(N::of)
                && !n.multiple_of(m)
            {
                bad!("multipleOf");
            }
        }
        if let V::Str(t) = v {
            let len = t.chars().count() as u64;
            if o.get("minLength").and_then(S::as_u64).is_some_and(|m| len < m) {
                bad!("minLength");
            }
            if o.get("maxLength").and_then(S::as_u64).is_some_and(|m| len > m) {
                bad!("maxLength");
            }
            if let Some(p) = o.get("pattern").and_then(S::as_str)
                && !regex::Regex::new(p).unwrap().is_match(t)
            {
                bad!("pattern");
            }
        }
        if let V::Arr(items) = v {
            self.array(base, o, items, at, &mut ann, &mut bad);
        }
        if let V::Tbl(t) = v {
            self.object(base, o, t, v, at, &mut ann, &mut bad);
        }
        if let Some(S::Array(l)) = o.get("allOf") {
            for s in l {
                match self.eval(base, s, v, at) {
                    Ok(a) => ann.merge(a),
                    Err(e) => bad!("allOf: {e}"),
                }
            }
        }
        if let Some(S::Array(l)) = o.get("anyOf") {
            let mut any = false;
            for s in l {
                if let Ok(a) = self.eval(base, s, v, at) {
                    any = true;
                    ann.merge(a);
                }
            }
            if !any {
                bad!("anyOf");
            }
        }
        if let Some(S::Array(l)) = o.get("oneOf") {
            let mut n = 0;
            for s in l {
                if let Ok(a) = self.eval(base, s, v, at) {
                    n += 1;
                    ann.merge(a);
                }
            }
            if n != 1 {
                bad!("oneOf: {n} match");
            }
        }
        if let Some(s) = o.get("not")
            && self.eval(base, s, v, at).is_ok()
        {
            bad!("not");
        }
        if let Some(c) = o.get("if") {
            let branch = match self.eval(base, c, v, at) {
                Ok(a) => {
                    ann.merge(a);
                    "then"
                }
                Err(_) => "else",
            };
            if let Some(s) = o.get(branch) {
                match self.eval(base, s, v, at) {
                    Ok(a) => ann.merge(a),
                    Err(e) => bad!("{branch}: {e}"),
                }
            }
        }
        // unevaluated* come last
        if self.dialect != Dialect::D7 {
            if let (V::Arr(items), Some(s)) = (v, o.get("unevaluatedItems")) {
                for (i, x) in items.iter().enumerate() {
                    if !ann.items.contains(&i) {
                        match self.eval(base, s, x, &format!("{at}[{i}]")) {
                            Ok(_) => {
                                ann.items.insert(i);
                            }
                            Err(e) => bad!("unevaluatedItems: {e}"),
                        }
                    }
                }
            }
            if let (V::Tbl(t), Some(s)) = (v, o.get("unevaluatedProperties")) {
                for (k, x) in t {
                    if !ann.props.contains(k) {
                        match self.eval(base, s, x, &format!("{at}.{k}")) {
                            Ok(_) => {
                                ann.props.insert(k.clone());
                            }
                            Err(e) => bad!("unevaluatedProperties: {e}"),
                        }
                    }
                }
            }
        }
        match bad {
            None => Ok(ann),
            Some(e) => Err(e),
        }
    }
    fn array(&self, base: &str, o: &'a Map<String, S>, items: &[V], at: &str, ann: &mut Ann, bad: &mut Option<String>) {
        let n = items.len() as u64;
        let mut fail = |e: String| {
            if bad.is_none() {
                *bad = Some(format!("{at}: {e}"));
            }
        };
        if o.get("minItems").and_then(S::as_u64).is_some_and(|m| n < m) {
            fail("minItems".into());
        }
        if o.get("maxItems").and_then(S::as_u64).is_some_and(|m| n > m) {
            fail("maxItems".into());
        }
        if o.get("uniqueItems") == Some(&S::Bool(true)) {
            for i in 0..items.len() {
                for j in 0..i {
                    if same(&items[i], &items[j]) {
                        fail("uniqueItems".into());
                    }
                }
            }
        }
        let (prefix, rest): (Option<&'a Vec<S>>, Option<&'a S>) = if self.dialect == Dialect::D2020 {
            (o.get("prefixItems").and_then(S::as_array), o.get("items").filter(|s| !s.is_array()))
        } else {
            match o.get("items") {
                Some(S::Array(p)) => (Some(p), o.get("additionalItems")),
                x => (None, x),
            }
        };
        let np = prefix.map_or(0, Vec::len);
        for (i, x) in items.iter().enumerate() {
            let s = if i < np { prefix.and_then(|p| p.get(i)) } else { rest };
            if let Some(s) = s {
                ann.items.insert(i);
                if let Err(e) = self.eval(base, s, x, &format!("{at}[{i}]")) {
                    fail(format!("items: {e}"));
                }
            }
        }
        if let Some(c) = o.get("contains") {
            let mut hits = 0u64;
            for (i, x) in items.iter().enumerate() {
                if self.eval(base, c, x, &format!("{at}[{i}]")).is_ok() {
                    hits += 1;
                    if self.dialect == Dialect::D2020 {
                        ann.items.insert(i);
                    }
                }
            }
            let (min, max) = if self.dialect == Dialect::D7 {
                (1, None)
            } else {
                (o.get("minContains").and_then(S::as_u64).unwrap_or(1), o.get("maxContains").and_then(S::as_u64))
            };
            if hits < min {
                fail("contains".into());
            }
            if max.is_some_and(|m| hits > m) {
                fail("maxContains".into());
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn object(&self, base: &str, o: &'a Map<String, S>, t: &[(String, V)], v: &V, at: &str, ann: &mut Ann, bad: &mut Option<String>) {
        let n = t.len() as u64;
        let mut fail = |e: String| {
            if bad.is_none() {
                *bad = Some(format!("{at}: {e}"));
            }
        };
        let has = |k: &str| t.iter().any(|(x, _)| x == k);
        if o.get("minProperties").and_then(S::as_u64).is_some_and(|m| n < m) {
            fail("minProperties".into());
        }
        if o.get("maxProperties").and_then(S::as_u64).is_some_and(|m| n > m) {
            fail("maxProperties".into());
        }
        if let Some(S::Array(r)) = o.get("required") {
            for k in r.iter().filter_map(S::as_str) {
                if !has(k) {
                    fail(format!("required {k}"));
                }
            }
        }
        if let Some(s) = o.get("propertyNames") {
            for (k, _) in t {
                if let Err(e) = self.eval(base, s, &V::Str(k.clone()), at) {
                    fail(format!("propertyNames: {e}"));
                }
            }
        }
        let props = o.get("properties").and_then(S::as_object);
        let pats = o.get("patternProperties").and_then(S::as_object);
        let addl = o.get("additionalProperties");
        for (k, x) in t {
            let at = format!("{at}.{k}");
            let mut matched = false;
            if let Some(s) = props.and_then(|p| p.get(k)) {
                matched = true;
                if let Err(e) = self.eval(base, s, x, &at) {
                    fail(format!("properties: {e}"));
                }
            }
            for (p, s) in pats.into_iter().flatten() {
                if regex::Regex::new(p).unwrap().is_match(k) {
                    matched = true;
                    if let Err(e) = self.eval(base, s, x, &at) {
                        fail(format!("patternProperties: {e}"));
                    }
                }
            }
            if matched {
                ann.props.insert(k.clone());
            } else if let Some(s) = addl {
                ann.props.insert(k.clone());
                if let Err(e) = self.eval(base, s, x, &at) {
                    fail(format!("additionalProperties: {e}"));
                }
            }
        }
        // A key one of the dependency keywords names counts as evaluated: the repository's own tests pin this for the
        // trigger of `dependentSchemas` (standard JSON Schema would not count it).
        let mut dep_schema = |k: &str, s: &'a S, ann: &mut Ann, fail: &mut dyn FnMut(String)| {
            ann.props.insert(k.to_string());
            if has(k) {
                match self.eval(base, s, v, at) {
                    Ok(a) => ann.merge(a),
                    Err(e) => fail(format!("dependent schema {k}: {e}")),
                }
            }
        };
        let dep_req = |k: &str, l: &[S], ann: &mut Ann, fail: &mut dyn FnMut(String)| {
            ann.props.insert(k.to_string());
            ann.props.extend(l.iter().filter_map(S::as_str).map(str::to_string));
            if has(k) {
                for r in l.iter().filter_map(S::as_str) {
                    if !has(r) {
                        fail(format!("dependentRequired {k}: {r}"));
                    }
                }
            }
        };
        if self.dialect < Dialect::D2020
            && let Some(S::Object(d)) = o.get("dependencies")
        {
            for (k, s) in d {
                match s {
                    S::Array(l) => dep_req(k, l, ann, &mut fail),
                    s => dep_schema(k, s, ann, &mut fail),
                }
            }
        }
        if self.dialect > Dialect::D7 {
            if let Some(S::Object(d)) = o.get("dependentRequired") {
                for (k, s) in d {
                    if let S::Array(l) = s {
                        dep_req(k, l, ann, &mut fail);
                    }
                }
            }
            if let Some(S::Object(d)) = o.get("dependentSchemas") {
                for (k, s) in d {
                    dep_schema(k, s, ann, &mut fail);
                }
            }
        }
    }
    fn is_type(&self, v: &V, t: &str, o: &Map<String, S>) -> bool {
        let format = o.get("format").and_then(S::as_str).filter(|f| matches!(*f, "date-time" | "date-time-local" | "date" | "time-local"));
        match v {
            V::Str(_) => t == "string" && format.is_none(),
            V::Int(_) => t == "integer" || t == "number",
            V::Float(_) => t == "number",
            V::Bool(_) => t == "boolean",
            V::Dt(d) => {
                t == "string"
                    && format
                        == Some(match (d.date.is_some(), d.time.is_some(), d.offset.is_some()) {
                            (true, true, true) => "date-time",
                            (true, true, false) => "date-time-local",
                            (true, false, _) => "date",
                            _ => "time-local",
                        })
            }
            V::Arr(_) => t == "array",
            V::Tbl(_) => t == "object",
        }
    }
}

pub fn join(base: &str, u: &str) -> String {
    if u.contains("://") {
        return u.to_string();
    }
    if let Some(p) = u.strip_prefix('/') {
        let (scheme, rest) = base.split_once("://").unwrap();
        let host = rest.split('/').next().unwrap();
        return format!("{scheme}://{host}/{p}");
    }
    match base.rsplit_once('/') {
        Some((d, _)) => format!("{d}/{u}"),
        None => u.to_string(),
    }
}
fn pct(t: &str) -> String {
    let b = t.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&t[i + 1..i + 3], 16) {
                out.push(x);
                i += 3;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn find_anchor<'a>(s: &'a S, name: &str) -> Option<&'a S> {
    match s {
        S::Object(o) => {
            if o.get("$anchor").and_then(S::as_str) == Some(name) {
                return Some(s);
            }
            o.values().find_map(|x| find_anchor(x, name))
        }
        S::Array(a) => a.iter().find_map(|x| find_anchor(x, name)),
        _ => None,
    }
}

#[derive(Clone, Copy, Debug)]
enum N {
    I(i64),
    F(f64),
}
impl N {
    fn of(s: &S) -> Option<N> {
        match s {
            S::Number(n) => n.as_i64().map(N::I).or(n.as_f64().map(N::F)),
            _ => None,
        }
    }
    fn cmp(self, o: N) -> Option<std::cmp::Ordering> {
        match (self, o) {
            (N::I(a), N::I(b)) => Some(a.cmp(&b)),
            (N::F(a), N::F(b)) => a.partial_cmp(&b),
            // the generator keeps mixed comparisons below 2^53
            (N::I(a), N::F(b)) => (a as f64).partial_cmp(&b),
            (N::F(a), N::I(b)) => a.partial_cmp(&(b as f64)),
        }
    }
    fn multiple_of(self, m: N) -> bool {
        match (self, m) {
            (N::I(a), N::I(b)) => b != 0 && a % b == 0,
            (a, b) => {
                // generated divisors are dyadic, so this is exact
                let (a, b) = (a.f(), b.f());
                (a / b).fract() == 0.0
            }
        }
    }
    fn f(self) -> f64 {
        match self {
            N::I(i) => i as f64,
            N::F(f) => f,
        }
    }
}
/// Equality of an instance and a JSON value
pub fn eq(v: &V, c: &S) -> bool {
    match (v, c) {
        (V::Str(a), S::String(b)) => a == b,
        (V::Bool(a), S::Bool(b)) => a == b,
        (V::Int(a), S::Number(_)) => N::of(c).is_some_and(|n| N::I(*a).cmp(n) == Some(std::cmp::Ordering::Equal)),
        (V::Float(a), S::Number(_)) => N::of(c).is_some_and(|n| N::F(*a).cmp(n) == Some(std::cmp::Ordering::Equal)),
        (V::Arr(a), S::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a, b)),
        (V::Tbl(a), S::Object(b)) => a.len() == b.len() && a.iter().all(|(k, a)| b.get(k).is_some_and(|b| eq(a, b))),
        _ => false,
    }
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Int(a), V::Float(b)) | (V::Float(b), V::Int(a)) => *a as f64 == *b,
        (V::Float(a), V::Float(b)) => a == b,
        (V::Int(a), V::Int(b)) => a == b,
        (V::Str(a), V::Str(b)) => a == b,
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Dt(a), V::Dt(b)) => a == b,
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (V::Tbl(a), V::Tbl(b)) => a.len() == b.len() && a.iter().all(|(k, a)| b.iter().any(|(l, b)| k == l && same(a, b))),
        _ => false,
    }
}
