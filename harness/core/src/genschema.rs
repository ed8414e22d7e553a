//! Random JSON Schemas, instances for them, and TOML text for values.
use crate::engine::Src;
use crate::refschema::Dialect;
use crate::reftoml::{Dt, Tbl, V};
use serde_json::{Map, Value as S, json};

pub const KEYS: &[&str] = &["a", "b", "c", "d", "x1", "x2", "y1"];
pub const PATS: &[&str] = &["^x", "1$", "^[ab]$", "c", "^.$"];
pub const STRS: &[&str] = &["", "a", "b", "ab", "abc", "xyz", "é", "日本", "a b", "1", "true", "e\u{301}", "👨\u{200d}👧"];
pub const SPATS: &[&str] = &["^a", "b$", "^[a-z]+$", "^.{2}$", "x", "^$"];

#[derive(Clone, Debug)]
pub struct Cfg {
    pub dialect: Dialect,
    /// every schema has a type
    pub typed: bool,
    pub combinators: bool,
    pub refs: u32,
    /// references from below a property or item, which may be recursive
    pub rec: u32,
    pub unevaluated: bool,
    pub cond: bool,
    pub bools: bool,
    pub dates: bool,
    pub multi: bool,
}
impl Cfg {
    pub fn random(src: &mut Src) -> Self {
        let refs = if src.chance(1, 2) { src.usize(1, 3) as u32 } else { 0 };
        Cfg {
            dialect: *src.pick(&[Dialect::D2020, Dialect::D7, Dialect::D2019]),
            typed: !src.chance(2, 3),
            combinators: src.chance(2, 3),
            refs,
            rec: if src.bool() { refs } else { 0 },
            unevaluated: src.chance(1, 3),
            cond: src.chance(1, 3),
            bools: src.chance(1, 2),
            dates: src.chance(1, 4),
            multi: src.chance(1, 2),
        }
    }
}

pub fn root(src: &mut Src, c: &Cfg) -> S {
    let mut s = object(src, c, 3);
    if !c.typed && src.chance(1, 4) {
        // any schema at all
        s = schema(src, c, 3);
        if !s.is_object() {
            s = json!({"allOf": [s]});
        }
        if c.dialect == Dialect::D7 && s.get("$ref").is_some() {
            s = json!({"allOf": [s]});
        }
    }
    let o = s.as_object_mut().unwrap();
    o.insert("$schema".into(), c.dialect.uri().into());
    if c.refs > 0 {
        let mut defs = Map::new();
        for i in 0..c.refs {
            // a definition only refers to later ones, so there is no endless recursion without progress
            let mut d = c.clone();
            d.refs = 0;
            let s = if i + 1 < c.refs && src.chance(1, 4) {
                json!({"$ref": format!("{}d{}", def_prefix(c), i + 1)})
            } else {
                schema(src, &d, 2)
            };
            defs.insert(format!("d{i}"), s);
        }
        let typed = defs.clone();
        o.insert(if c.dialect == Dialect::D7 { "definitions" } else { "$defs" }.into(), S::Object(defs));
        if c.dialect != Dialect::D7 {
            annotate(src, &mut s, &|r| r.strip_prefix(def_prefix(c)).and_then(|d| typed.get(d)).is_some_and(|d| d["type"].is_string()));
        }
    }
    s
}
fn def_prefix(c: &Cfg) -> &'static str {
    if c.dialect == Dialect::D7 { "#/definitions/" } else { "#/$defs/" }
}
pub fn schema(src: &mut Src, c: &Cfg, depth: u32) -> S {
    let leaf = depth == 0;
    let w = [
        8,                                             // scalar types
        if c.bools { 1 } else { 0 },                   // true/false
        if c.refs > 0 { 3 } else { 0 },                // $ref
        3,                                             // enum/const
        if leaf { 0 } else { 4 },                      // array
        if leaf { 0 } else { 5 },                      // object
        if leaf || !c.combinators { 0 } else { 4 },    // combinator only
        if c.multi { 2 } else { 0 },                   // several types
        if c.typed { 0 } else { 2 },                   // keywords of any kind, no type
        if c.dates { 1 } else { 0 },
    ];
    let mut s = match src.weighted(&w) {
        0 => scalar(src, c, depth),
        1 => return S::Bool(!src.chance(1, 3)),
        2 => return refer(src, c, depth),
        3 => literal(src, c),
        4 => array(src, c, depth),
        5 => object(src, c, depth),
        6 => {
            let mut o = Map::new();
            applicator(src, c, depth, &mut o);
            S::Object(o)
        }
        7 => {
            let mut o = Map::new();
            let mut ts = vec!["string", "integer", "boolean", "number", "array", "object"];
            src.shuffle(&mut ts);
            ts.truncate(src.usize(2, 3));
            for t in &ts {
                keywords(src, c, depth, t, &mut o);
            }
            o.insert("type".into(), json!(ts));
            S::Object(o)
        }
        8 => {
            let mut o = Map::new();
            for _ in 0..src.usize(1, 2) {
                let t = *src.pick(&["string", "integer", "number", "array", "object"]);
                keywords(src, c, depth, t, &mut o);
            }
            S::Object(o)
        }
        _ => json!({"type": "string", "format": *src.pick(&["date-time", "date", "date-time-local", "time-local"])}),
    };
    if depth > 0 && c.combinators && s.is_object() && src.chance(1, 6) {
        let mut o = s.as_object().unwrap().clone();
        applicator(src, c, depth, &mut o);
        s = S::Object(o);
    }
    s
}
fn refer(src: &mut Src, c: &Cfg, depth: u32) -> S {
    let mut o = Map::new();
    o.insert("$ref".into(), format!("{}d{}", def_prefix(c), src.below(c.refs)).into());
    let _ = depth;
    S::Object(o)
}
fn literal(src: &mut Src, c: &Cfg) -> S {
    let n = src.usize(1, 3);
    let vals: Vec<S> = (0..n).map(|_| jval(src, c)).collect();
    let mut o = Map::new();
    if src.bool() {
        o.insert("const".into(), vals[0].clone());
    } else {
        let mut u: Vec<S> = vec![];
        for v in vals {
            if !u.contains(&v) {
                u.push(v);
            }
        }
        o.insert("enum".into(), S::Array(u));
    }
    S::Object(o)
}
fn jval(src: &mut Src, c: &Cfg) -> S {
    match src.weighted(&[4, 4, 2, 1, 1, 1]) {
        0 => json!(*src.pick(STRS)),
        1 => json!(src.range(-3, 5)),
        2 => json!(src.bool()),
        3 => json!(*src.pick(&[0.5, 1.5, -2.25])),
        4 => json!([jval0(src), jval0(src)]),
        _ => {
            let _ = c;
            json!({*src.pick(KEYS): jval0(src)})
        }
    }
}
fn jval0(src: &mut Src) -> S {
    match src.below(3) {
        0 => json!(*src.pick(STRS)),
        1 => json!(src.range(0, 3)),
        _ => json!(src.bool()),
    }
}
fn scalar(src: &mut Src, c: &Cfg, depth: u32) -> S {
    let t = *src.pick(&["string", "integer", "boolean", "number"]);
    let mut o = Map::new();
    o.insert("type".into(), t.into());
    if src.chance(2, 3) {
        keywords(src, c, depth, t, &mut o);
    }
    if src.chance(1, 8) {
        let l = literal(src, c);
        for (k, v) in l.as_object().unwrap() {
            o.insert(k.clone(), v.clone());
        }
    }
    S::Object(o)
}
pub fn keywords(src: &mut Src, c: &Cfg, depth: u32, t: &str, o: &mut Map<String, S>) {
    match t {
        "string" => {
            for _ in 0..src.usize(1, 2) {
                match src.below(3) {
                    0 => o.insert("minLength".into(), src.range(0, 3).into()),
                    1 => o.insert("maxLength".into(), src.range(0, 3).into()),
                    _ => o.insert("pattern".into(), (*src.pick(SPATS)).into()),
                };
            }
        }
        "integer" | "number" => {
            for _ in 0..src.usize(1, 2) {
                let k = *src.pick(&["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"]);
                let v = match (k, src.chance(1, 4)) {
                    ("multipleOf", true) => json!(*src.pick(&[0.5, 1.5, 0.25])),
                    ("multipleOf", false) => json!(src.range(1, 4)),
                    (_, true) => json!(src.range(-4, 8) as f64 + 0.5),
                    (_, false) => json!(src.range(-3, 6)),
                };
                o.insert(k.into(), v);
            }
        }
        "array" => array_kw(src, c, depth, o),
        "object" => object_kw(src, c, depth, o),
        _ => {}
    }
}
fn array(src: &mut Src, c: &Cfg, depth: u32) -> S {
    let mut o = Map::new();
    o.insert("type".into(), "array".into());
    array_kw(src, c, depth, &mut o);
    S::Object(o)
}
fn array_kw(src: &mut Src, c: &Cfg, depth: u32, o: &mut Map<String, S>) {
    let d = depth.saturating_sub(1);
    for _ in 0..src.usize(1, 2) {
        match src.weighted(&[4, 3, 2, 2, 2, 1, if c.unevaluated && c.dialect != Dialect::D7 { 3 } else { 0 }]) {
            0 => {
                if c.dialect != Dialect::D2020 && o.get("items").is_some_and(S::is_array) {
                    continue;
                }
                let s = child(src, c, d);
                o.insert("items".into(), s);
            }
            1 => {
                let l: Vec<S> = (0..src.usize(1, 3)).map(|_| child(src, c, d)).collect();
                if c.dialect == Dialect::D2020 {
                    o.insert("prefixItems".into(), S::Array(l));
                } else {
                    o.insert("items".into(), S::Array(l));
                    if src.bool() {
                        let s = if src.bool() { S::Bool(false) } else { child(src, c, d) };
                        o.insert("additionalItems".into(), s);
                    }
                }
            }
            2 => {
                o.insert("minItems".into(), src.range(0, 3).into());
            }
            3 => {
                o.insert("maxItems".into(), src.range(0, 3).into());
            }
            4 => {
                let s = schema(src, c, d);
                o.insert("contains".into(), s);
                if c.dialect != Dialect::D7 {
                    if src.chance(1, 3) {
                        o.insert("minContains".into(), src.range(0, 2).into());
                    }
                    if src.chance(1, 3) {
                        o.insert("maxContains".into(), src.range(0, 2).into());
                    }
                }
            }
            5 => {
                o.insert("uniqueItems".into(), true.into());
            }
            _ => {
                let s = if src.bool() { S::Bool(false) } else { schema(src, c, d) };
                o.insert("unevaluatedItems".into(), s);
            }
        }
    }
}
fn object(src: &mut Src, c: &Cfg, depth: u32) -> S {
    let mut o = Map::new();
    o.insert("type".into(), "object".into());
    object_kw(src, c, depth, &mut o);
    if src.bool() {
        object_kw(src, c, depth, &mut o);
    }
    if depth > 0 && c.combinators && src.chance(1, 4) {
        applicator(src, c, depth, &mut o);
    }
    if depth > 0 && c.cond && src.chance(1, 4) {
        conditional(src, c, depth, &mut o);
    }
    S::Object(o)
}
fn conditional(src: &mut Src, c: &Cfg, depth: u32, o: &mut Map<String, S>) {
    let d = depth - 1;
    let s = if src.bool() { object(src, c, d) } else { schema(src, c, d) };
    o.insert("if".into(), s);
    for k in ["then", "else"] {
        if src.chance(2, 3) {
            let s = if src.bool() { object(src, c, d) } else { schema(src, c, d) };
            o.insert(k.into(), s);
        }
    }
}
fn object_kw(src: &mut Src, c: &Cfg, depth: u32, o: &mut Map<String, S>) {
    let d = depth.saturating_sub(1);
    let wu = if c.unevaluated && c.dialect != Dialect::D7 { 3 } else { 0 };
    for _ in 0..src.usize(1, 3) {
        match src.weighted(&[8, 3, 3, 3, 1, 1, 2, 2, wu]) {
            0 => {
                let mut p = Map::new();
                for _ in 0..src.usize(1, 3) {
                    let s = child(src, c, d);
                    p.insert((*src.pick(KEYS)).into(), s);
                }
                o.insert("properties".into(), S::Object(p));
            }
            1 => {
                let mut p = Map::new();
                for _ in 0..src.usize(1, 2) {
                    let s = child(src, c, d);
                    p.insert((*src.pick(PATS)).into(), s);
                }
                o.insert("patternProperties".into(), S::Object(p));
            }
            2 => {
                let s = match src.below(3) {
                    0 => S::Bool(false),
                    1 => S::Bool(true),
                    _ => child(src, c, d),
                };
                o.insert("additionalProperties".into(), s);
            }
            3 => {
                let l: Vec<S> = some_keys(src, 1, 2);
                o.insert("required".into(), S::Array(l));
            }
            4 => {
                o.insert("minProperties".into(), src.range(0, 3).into());
            }
            5 => {
                o.insert("maxProperties".into(), src.range(0, 4).into());
            }
            6 => {
                let s = match src.below(3) {
                    0 => json!({"pattern": *src.pick(PATS)}),
                    1 => json!({"maxLength": src.range(1, 2)}),
                    _ => json!({"enum": some_keys(src, 2, 5)}),
                };
                o.insert("propertyNames".into(), s);
            }
            7 => {
                let k = *src.pick(KEYS);
                let req = S::Array(some_keys(src, 1, 2));
                let sch = if src.bool() { object(src, c, d.min(1)) } else { schema(src, c, d.min(1)) };
                match (c.dialect, src.below(3)) {
                    (Dialect::D7, 0) => o.insert("dependencies".into(), json!({k: req})),
                    (Dialect::D7, _) => o.insert("dependencies".into(), json!({k: sch})),
                    (Dialect::D2019, 2) => o.insert("dependencies".into(), json!({k: req})),
                    (_, 0) => o.insert("dependentRequired".into(), json!({k: req})),
                    _ => o.insert("dependentSchemas".into(), json!({k: sch})),
                };
            }
            _ => {
                let s = if src.chance(2, 3) { S::Bool(false) } else { schema(src, c, d) };
                o.insert("unevaluatedProperties".into(), s);
            }
        }
    }
}
/// A schema below a property or an item.
fn child(src: &mut Src, c: &Cfg, depth: u32) -> S {
    if c.rec > 0 && src.chance(1, 5) {
        return match src.below(c.rec + 1) {
            0 => json!({"$ref": "#"}),
            i => json!({"$ref": format!("{}d{}", def_prefix(c), i - 1)}),
        };
    }
    schema(src, c, depth)
}
/// Annotations beside references to typed schemas. Other keywords beside `$ref`
/// belong to the open findings of C11.
fn annotate(src: &mut Src, s: &mut S, typed: &dyn Fn(&str) -> bool) {
    match s {
        S::Object(o) => {
            if let Some(S::String(r)) = o.get("$ref") {
                if typed(r) && src.chance(1, 4) {
                    o.insert((*src.pick(&["title", "description", "$comment"])).into(), "note".into());
                }
            }
            for (k, v) in o.iter_mut() {
                if !matches!(k.as_str(), "enum" | "const") {
                    annotate(src, v, typed);
                }
            }
        }
        S::Array(l) => l.iter_mut().for_each(|v| annotate(src, v, typed)),
        _ => {}
    }
}
fn some_keys(src: &mut Src, lo: usize, hi: usize) -> Vec<S> {
    let mut ks = KEYS.to_vec();
    src.shuffle(&mut ks);
    ks.truncate(src.usize(lo, hi));
    ks.into_iter().map(S::from).collect()
}
fn applicator(src: &mut Src, c: &Cfg, depth: u32, o: &mut Map<String, S>) {
    let d = depth - 1;
    // `not` of an untyped schema and a date-time: an open finding of C11
    let wn = if c.dates && !o.contains_key("type") { 0 } else { 2 };
    match src.weighted(&[3, 3, 3, wn]) {
        k @ 0..=2 => {
            let l: Vec<S> = (0..src.usize(1, 3)).map(|_| if src.chance(1, 3) { object(src, c, d) } else { schema(src, c, d) }).collect();
            o.insert(["anyOf", "oneOf", "allOf"][k].into(), S::Array(l));
        }
        _ => {
            let s = schema(src, c, d);
            o.insert("not".into(), s);
        }
    }
}

// ------------------------------------------------------------------------------------------ dense
/// A sub-schema that is decided by one scalar.
fn tiny(src: &mut Src) -> S {
    match src.weighted(&[3, 3, 2, 2, 1, 1, 1, 1, 1]) {
        0 => json!({"type": "integer"}),
        1 => json!({"type": "string"}),
        2 => json!({"const": src.range(0, 2)}),
        3 => json!({"type": "integer", "minimum": src.range(0, 3)}),
        4 => json!({"enum": [1, "a"]}),
        5 => json!({"type": ["integer", "boolean"]}),
        6 => S::Bool(false),
        7 => S::Bool(true),
        _ => json!({"type": "string", "maxLength": 1}),
    }
}
/// Many keywords of arrays beside each other, and applicators over schemas of the same kind.
pub fn dense_array(src: &mut Src, c: Dialect, depth: u32) -> S {
    let mut o = Map::new();
    if src.chance(2, 3) {
        o.insert("type".into(), "array".into());
    }
    let uneval = c != Dialect::D7;
    if src.bool() {
        let l: Vec<S> = (0..src.usize(1, 3)).map(|_| tiny(src)).collect();
        if c == Dialect::D2020 {
            o.insert("prefixItems".into(), S::Array(l));
            if src.bool() {
                o.insert("items".into(), tiny(src));
            }
        } else {
            o.insert("items".into(), S::Array(l));
            if src.bool() {
                o.insert("additionalItems".into(), tiny(src));
            }
        }
    } else if src.chance(1, 3) {
        o.insert("items".into(), tiny(src));
    }
    if src.chance(2, 5) {
        o.insert("contains".into(), tiny(src));
        if uneval && src.bool() {
            o.insert("minContains".into(), src.range(0, 3).into());
        }
        if uneval && src.bool() {
            o.insert("maxContains".into(), src.range(0, 3).into());
        }
    }
    if src.chance(1, 8) {
        o.insert("minItems".into(), src.range(0, 3).into());
    }
    if src.chance(1, 8) {
        o.insert("maxItems".into(), src.range(0, 4).into());
    }
    if src.chance(1, 8) {
        o.insert("uniqueItems".into(), src.chance(3, 4).into());
    }
    if uneval && src.chance(3, 5) {
        let s = if src.bool() { S::Bool(false) } else { tiny(src) };
        o.insert("unevaluatedItems".into(), s);
    }
    dense_applicators(src, c, depth, &mut o, dense_array);
    S::Object(o)
}
pub fn dense_object(src: &mut Src, c: Dialect, depth: u32) -> S {
    let mut o = Map::new();
    if src.chance(2, 3) {
        o.insert("type".into(), "object".into());
    }
    let uneval = c != Dialect::D7;
    if src.chance(2, 3) {
        let mut p = Map::new();
        for _ in 0..src.usize(1, 2) {
            p.insert((*src.pick(&KEYS[..4])).into(), tiny(src));
        }
        o.insert("properties".into(), S::Object(p));
    }
    if src.chance(1, 3) {
        o.insert("patternProperties".into(), json!({*src.pick(PATS): tiny(src)}));
    }
    if src.chance(1, 4) {
        o.insert("additionalProperties".into(), tiny(src));
    }
    if src.chance(1, 5) {
        o.insert("required".into(), S::Array(some_keys(src, 1, 2)));
    }
    if src.chance(1, 8) {
        o.insert("propertyNames".into(), json!({"pattern": *src.pick(PATS)}));
    }
    if src.chance(1, 8) {
        o.insert("minProperties".into(), src.range(0, 3).into());
    }
    if src.chance(1, 8) {
        o.insert("maxProperties".into(), src.range(0, 4).into());
    }
    if src.chance(1, 3) {
        let k = *src.pick(&KEYS[..4]);
        let req = S::Array(some_keys(src, 1, 2));
        let sch = if depth > 0 { dense_object(src, c, 0) } else { json!({"required": some_keys(src, 1, 1)}) };
        let name = match (c, src.bool()) {
            (Dialect::D7, _) => "dependencies",
            (_, true) => "dependentRequired",
            _ => "dependentSchemas",
        };
        let sub = if name == "dependentRequired" || (name == "dependencies" && src.bool()) { req } else { sch };
        o.insert(name.into(), json!({k: sub}));
    }
    if uneval && src.chance(3, 5) {
        let s = if src.bool() { S::Bool(false) } else { tiny(src) };
        o.insert("unevaluatedProperties".into(), s);
    }
    dense_applicators(src, c, depth, &mut o, dense_object);
    S::Object(o)
}
fn dense_applicators(src: &mut Src, c: Dialect, depth: u32, o: &mut Map<String, S>, of: fn(&mut Src, Dialect, u32) -> S) {
    if depth == 0 {
        return;
    }
    for k in ["allOf", "anyOf", "oneOf"] {
        if src.chance(1, 4) {
            let l: Vec<S> = (0..src.usize(1, 3)).map(|_| of(src, c, depth - 1)).collect();
            o.insert(k.into(), S::Array(l));
        }
    }
    if src.chance(1, 8) {
        let s = of(src, c, depth - 1);
        o.insert("not".into(), s);
    }
    if src.chance(1, 4) {
        let s = of(src, c, depth - 1);
        o.insert("if".into(), s);
        for k in ["then", "else"] {
            if src.chance(2, 3) {
                let s = of(src, c, depth - 1);
                o.insert(k.into(), s);
            }
        }
    }
}
pub fn dense_items(src: &mut Src) -> Vec<V> {
    (0..src.usize(0, 4)).map(|_| dense_scalar(src)).collect()
}
pub fn dense_keys(src: &mut Src) -> Tbl {
    let mut t: Tbl = vec![];
    for k in KEYS {
        if src.chance(2, 5) {
            t.push(((*k).into(), dense_scalar(src)));
        }
    }
    t
}
fn dense_scalar(src: &mut Src) -> V {
    match src.weighted(&[5, 3, 1]) {
        0 => V::Int(src.range(0, 4)),
        1 => V::Str((*src.pick(&["a", "bb", ""])).into()),
        _ => V::Bool(src.bool()),
    }
}

// ------------------------------------------------------------------------------------------ instances
pub struct Inst<'a> {
    pub root: &'a S,
    pub dates: bool,
}
impl Inst<'_> {
    fn follow<'b>(&'b self, s: &'b S) -> &'b S {
        let mut s = s;
        for _ in 0..8 {
            match s.get("$ref").and_then(S::as_str) {
                Some(r) => match r.strip_prefix('#').and_then(|p| self.root.pointer(p)) {
                    Some(t) => s = t,
                    None => break,
                },
                None => break,
            }
        }
        s
    }
    /// a value that more often than not satisfies the schema
    pub fn value(&self, src: &mut Src, s: &S, depth: u32) -> V {
        let s = self.follow(s);
        let S::Object(o) = s else { return self.any(src, depth) };
        if src.chance(1, 12) {
            return self.any(src, depth);
        }
        if let Some(c) = o.get("const") {
            return from_json(c);
        }
        if let Some(S::Array(e)) = o.get("enum")
            && !e.is_empty()
        {
            return from_json(src.pick(e));
        }
        let t = match o.get("type") {
            Some(S::String(t)) => t.as_str(),
            Some(S::Array(l)) if !l.is_empty() => src.pick(l).as_str().unwrap_or("string"),
            _ => {
                let of: Vec<&S> = ["anyOf", "oneOf", "allOf"].iter().filter_map(|k| o.get(*k)?.as_array()).flatten().collect();
                if !of.is_empty() && (o.len() == 1 || src.bool()) {
                    let x = *src.pick(&of);
                    return if depth == 0 { self.any(src, 0) } else { self.value(src, x, depth - 1) };
                }
                guess(o)
            }
        };
        match t {
            "boolean" => V::Bool(src.bool()),
            "integer" | "number" => {
                let m = o.get("multipleOf").and_then(S::as_i64).unwrap_or(1);
                let lo = ["minimum", "exclusiveMinimum"].iter().find_map(|k| o.get(*k)?.as_f64()).map(|f| f as i64);
                let hi = ["maximum", "exclusiveMaximum"].iter().find_map(|k| o.get(*k)?.as_f64()).map(|f| f as i64);
                let base = match (lo, hi) {
                    (Some(l), _) => l + src.range(-1, 4),
                    (_, Some(h)) => h - src.range(-1, 4),
                    _ => src.range(-2, 6),
                };
                let i = if src.chance(3, 4) { base - base.rem_euclid(m) + if src.chance(1, 2) { m } else { 0 } } else { base };
                if t == "number" && src.bool() { V::Float(i as f64 + *src.pick(&[0.0, 0.5, 0.25])) } else { V::Int(i) }
            }
            "string" => match o.get("format").and_then(S::as_str) {
                Some(f) if self.dates => {
                    if src.chance(1, 8) {
                        self.scalar(src)
                    } else {
                        V::Dt(dt(src, match f {
                            "date-time" => 0,
                            "date-time-local" => 1,
                            "date" => 2,
                            _ => 3,
                        }))
                    }
                }
                _ => {
                    if src.chance(1, 4) {
                        let n = src.usize(0, 4);
                        V::Str((0..n).map(|_| *src.pick(&['a', 'b', 'x', 'é', '1'])).collect())
                    } else {
                        V::Str((*src.pick(STRS)).into())
                    }
                }
            },
            "array" => {
                let pre: Vec<&S> = match (o.get("prefixItems"), o.get("items")) {
                    (Some(S::Array(p)), _) => p.iter().collect(),
                    (_, Some(S::Array(p))) => p.iter().collect(),
                    _ => vec![],
                };
                let rest = ["items", "additionalItems", "contains", "unevaluatedItems"].iter().filter_map(|k| o.get(*k)).find(|s| !s.is_array());
                let lo = o.get("minItems").and_then(S::as_u64).unwrap_or(0) as usize;
                let n = (lo + src.usize(0, 3)).min(4);
                V::Arr(
                    (0..n)
                        .map(|i| {
                            let s = pre.get(i).copied().or(if src.chance(1, 4) { o.get("contains").or(rest) } else { rest });
                            match (s, depth) {
                                (Some(s), 1..) => self.value(src, s, depth - 1),
                                _ => self.any(src, depth.saturating_sub(1)),
                            }
                        })
                        .collect(),
                )
            }
            _ if depth == 0 => self.any(src, 0),
            _ => V::Tbl(self.table(src, o, depth)),
        }
    }
    pub fn table(&self, src: &mut Src, o: &Map<String, S>, depth: u32) -> Tbl {
        let mut t: Tbl = vec![];
        let mut put = |t: &mut Tbl, k: &str, v: V| {
            if !t.iter().any(|(x, _)| x == k) {
                t.push((k.into(), v));
            }
        };
        let d = depth.saturating_sub(1);
        let mut sources: Vec<&Map<String, S>> = vec![o];
        for k in ["anyOf", "oneOf", "allOf"] {
            if let Some(S::Array(l)) = o.get(k)
                && !l.is_empty()
                && src.chance(3, 4)
            {
                let x = self.follow(src.pick(l));
                if let S::Object(x) = x {
                    sources.push(x);
                }
            }
        }
        for k in ["if", "then", "else"] {
            if let Some(S::Object(x)) = o.get(k)
                && src.chance(1, 2)
            {
                sources.push(x);
            }
        }
        for o in sources {
            if let Some(S::Object(p)) = o.get("properties") {
                for (k, s) in p {
                    if src.chance(3, 4) {
                        let v = self.value(src, s, d);
                        put(&mut t, k, v);
                    }
                }
            }
            if let Some(S::Object(p)) = o.get("patternProperties") {
                for (p, s) in p {
                    let re = regex::Regex::new(p).unwrap();
                    if let Some(k) = KEYS.iter().find(|k| re.is_match(k))
                        && src.chance(2, 3)
                    {
                        let v = self.value(src, s, d);
                        put(&mut t, k, v);
                    }
                }
            }
            if let Some(S::Array(r)) = o.get("required") {
                for k in r.iter().filter_map(S::as_str) {
                    if src.chance(5, 6) {
                        let s = o.get("additionalProperties").filter(|s| s.is_object());
                        let v = match s {
                            Some(s) => self.value(src, s, d),
                            None => self.any(src, d),
                        };
                        put(&mut t, k, v);
                    }
                }
            }
            if let Some(s) = o.get("additionalProperties").or(o.get("unevaluatedProperties")).filter(|s| s.is_object())
                && src.bool()
            {
                let v = self.value(src, s, d);
                put(&mut t, src.pick(KEYS), v);
            }
            for dep in ["dependencies", "dependentSchemas", "dependentRequired"] {
                if let Some(S::Object(p)) = o.get(dep) {
                    for (k, s) in p {
                        if src.bool() {
                            let v = self.any(src, 0);
                            put(&mut t, k, v);
                            if let S::Array(l) = s {
                                for r in l.iter().filter_map(S::as_str) {
                                    if src.chance(2, 3) {
                                        let v = self.any(src, 0);
                                        put(&mut t, r, v);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        if src.chance(1, 5) {
            let v = self.any(src, d);
            put(&mut t, src.pick(KEYS), v);
        }
        if src.chance(1, 10) && !t.is_empty() {
            let i = src.below(t.len() as u32) as usize;
            t.remove(i);
        }
        t
    }
    fn scalar(&self, src: &mut Src) -> V {
        match src.weighted(&[3, 3, 2, 1, if self.dates { 1 } else { 0 }]) {
            0 => V::Str((*src.pick(STRS)).into()),
            1 => V::Int(src.range(-3, 6)),
            2 => V::Bool(src.bool()),
            3 => V::Float(src.range(-8, 24) as f64 / 4.0),
            _ => {
                let k = src.below(4);
                V::Dt(dt(src, k))
            }
        }
    }
    pub fn any(&self, src: &mut Src, depth: u32) -> V {
        match src.weighted(&[6, if depth > 0 { 1 } else { 0 }, if depth > 0 { 1 } else { 0 }]) {
            0 => self.scalar(src),
            1 => V::Arr((0..src.usize(0, 2)).map(|_| self.any(src, depth - 1)).collect()),
            _ => {
                let mut t: Tbl = vec![];
                for _ in 0..src.usize(0, 2) {
                    let k = *src.pick(KEYS);
                    let v = self.any(src, depth - 1);
                    if !t.iter().any(|(x, _)| x == k) {
                        t.push((k.into(), v));
                    }
                }
                V::Tbl(t)
            }
        }
    }
}
fn dt(src: &mut Src, k: u32) -> Dt {
    let date = Some((2000 + src.below(30) as u16, 1 + src.below(12) as u8, 1 + src.below(28) as u8));
    let time = Some((src.below(24) as u8, src.below(60) as u8, src.below(60) as u8, 0));
    match k {
        0 => Dt { date, time, offset: Some(*src.pick(&[0, 90, -300])) },
        1 => Dt { date, time, offset: None },
        2 => Dt { date, time: None, offset: None },
        _ => Dt { date: None, time, offset: None },
    }
}
fn guess(o: &Map<String, S>) -> &'static str {
    for k in o.keys() {
        match k.as_str() {
            "properties" | "patternProperties" | "additionalProperties" | "required" | "minProperties" | "maxProperties" | "propertyNames"
            | "dependencies" | "dependentRequired" | "dependentSchemas" | "unevaluatedProperties" | "if" => return "object",
            "items" | "prefixItems" | "contains" | "minItems" | "maxItems" | "uniqueItems" | "unevaluatedItems" => return "array",
            "minimum" | "maximum" | "exclusiveMinimum" | "exclusiveMaximum" | "multipleOf" => return "number",
            "minLength" | "maxLength" | "pattern" => return "string",
            _ => {}
        }
    }
    "integer"
}
pub fn from_json(s: &S) -> V {
    match s {
        S::Null => V::Str("null".into()),
        S::Bool(b) => V::Bool(*b),
        S::Number(n) => n.as_i64().map(V::Int).unwrap_or_else(|| V::Float(n.as_f64().unwrap())),
        S::String(t) => V::Str(t.clone()),
        S::Array(a) => V::Arr(a.iter().map(from_json).collect()),
        S::Object(o) => V::Tbl(o.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
    }
}

// ------------------------------------------------------------------------------------------ text
pub fn quote(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn key_text(k: &str) -> String {
    if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') { k.into() } else { quote(k) }
}
pub fn inline(v: &V) -> String {
    match v {
        V::Str(s) => quote(s),
        V::Int(i) => i.to_string(),
        V::Float(f) if f.is_nan() => "nan".into(),
        V::Float(f) if f.is_infinite() => if *f > 0.0 { "inf" } else { "-inf" }.into(),
        V::Float(f) => format!("{f:?}"),
        V::Bool(b) => b.to_string(),
        V::Dt(d) => {
            let mut o = String::new();
            if let Some((y, m, dd)) = d.date {
                o += &format!("{y:04}-{m:02}-{dd:02}");
            }
            if let Some((h, m, s, n)) = d.time {
                if !o.is_empty() {
                    o.push('T');
                }
                o += &format!("{h:02}:{m:02}:{s:02}");
                if n != 0 {
                    o += &format!(".{n:09}");
                }
            }
            match d.offset {
                Some(0) => o.push('Z'),
                Some(m) => o += &format!("{}{:02}:{:02}", if m < 0 { '-' } else { '+' }, m.abs() / 60, m.abs() % 60),
                None => {}
            }
            o
        }
        V::Arr(a) => format!("[{}]", a.iter().map(inline).collect::<Vec<_>>().join(", ")),
        V::Tbl(t) if t.is_empty() => "{}".into(),
        V::Tbl(t) => format!("{{ {} }}", t.iter().map(|(k, v)| format!("{} = {}", key_text(k), inline(v))).collect::<Vec<_>>().join(", ")),
    }
}
/// Text of a document with the given data; tables become sections, inline tables or dotted keys
pub fn document(src: &mut Src, t: &Tbl) -> String {
    let mut o = String::new();
    section(src, t, "", &mut o);
    o
}
fn dotted_ok(t: &Tbl) -> bool {
    !t.is_empty()
}
fn section(src: &mut Src, t: &Tbl, path: &str, o: &mut String) {
    let mut later = vec![];
    for (k, v) in t {
        let kt = key_text(k);
        match v {
            V::Tbl(s) => match src.weighted(&[3, 2, 1]) {
                0 => later.push((kt, v)),
                1 => o.push_str(&format!("{kt} = {}\n", inline(v))),
                _ if dotted_ok(s) => {
                    for (k2, v2) in s {
                        o.push_str(&format!("{kt}.{} = {}\n", key_text(k2), inline(v2)));
                    }
                }
                _ => o.push_str(&format!("{kt} = {{}}\n")),
            },
            V::Arr(a) if !a.is_empty() && a.iter().all(|x| matches!(x, V::Tbl(_))) && src.bool() => later.push((kt, v)),
            _ => o.push_str(&format!("{kt} = {}\n", inline(v))),
        }
    }
    for (kt, v) in later {
        let p = if path.is_empty() { kt } else { format!("{path}.{kt}") };
        match v {
            V::Tbl(s) => {
                o.push_str(&format!("[{p}]\n"));
                section(src, s, &p, o);
            }
            V::Arr(a) => {
                for x in a {
                    if let V::Tbl(s) = x {
                        o.push_str(&format!("[[{p}]]\n"));
                        section(src, s, &p, o);
                    }
                }
            }
            _ => {}
        }
    }
}
