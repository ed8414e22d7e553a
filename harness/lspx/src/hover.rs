//! C39
use crate::generate as gn;
use crate::srv::*;
use serde_json::{Value as S, json};
use std::collections::{BTreeSet, HashMap};
use vt_core::engine::*;
use vt_core::ensure;
use vt_core::reftoml::{self, StmtKind, T, Tok, V, Ver};

#[derive(Clone, Debug, PartialEq)]
enum A {
    K(String),
    I(usize),
}
/// A token of the document that stands for a key or a value
#[derive(Debug)]
struct Item {
    s: usize,
    e: usize,
    path: Vec<A>,
    kind: &'static str,
}
struct Walk<'a> {
    text: &'a str,
    toks: Vec<&'a Tok>,
    at: usize,
    items: Vec<Item>,
}
impl Walk<'_> {
    fn scalar(x: &str) -> &'static str {
        if x.starts_with(['"', '\'']) {
            return "String";
        }
        if x == "true" || x == "false" {
            return "Boolean";
        }
        match reftoml::parse_dt(x, Ver::V11) {
            Ok((d, _)) => match (d.date.is_some(), d.time.is_some(), d.offset.is_some()) {
                (true, true, true) => "OffsetDateTime",
                (true, true, false) => "LocalDateTime",
                (true, false, _) => "LocalDate",
                _ => "LocalTime",
            },
            Err(_) => {
                let x = x.trim_start_matches(['+', '-']);
                let float = !x.starts_with("0x") && x.contains(['.', 'e', 'E', 'i', 'n']);
                if float { "Float" } else { "Integer" }
            }
        }
    }
    fn next(&mut self) -> Tok {
        self.at += 1;
        self.toks[self.at - 1].clone()
    }
    /// The value at the current token; its kind
    fn value(&mut self, path: &[A]) -> &'static str {
        let t = self.next();
        match t.t {
            T::Scalar => {
                let kind = Self::scalar(&self.text[t.s..t.e]);
                self.items.push(Item { s: t.s, e: t.e, path: path.to_vec(), kind });
                kind
            }
            T::ArrOpen => {
                let mut n = 0;
                while self.toks[self.at].t != T::ArrClose {
                    if self.toks[self.at].t == T::Comma {
                        self.at += 1;
                        continue;
                    }
                    let path: Vec<A> = path.iter().cloned().chain([A::I(n)]).collect();
                    self.value(&path);
                    n += 1;
                }
                self.at += 1;
                "Array"
            }
            _ => {
                while self.toks[self.at].t != T::InlClose {
                    if self.toks[self.at].t == T::Comma {
                        self.at += 1;
                        continue;
                    }
                    self.key_value(path);
                }
                self.at += 1;
                "Table"
            }
        }
    }
    fn key_value(&mut self, path: &[A]) {
        let mut keys = vec![];
        let mut path = path.to_vec();
        loop {
            let t = self.next();
            match t.t {
                T::Key => {
                    path.push(A::K(key_text(&self.text[t.s..t.e])));
                    keys.push((t, path.clone()));
                }
                T::Dot => {}
                _ => break,
            }
        }
        let kind = self.value(&path);
        let n = keys.len();
        for (i, (t, path)) in keys.into_iter().enumerate() {
            self.items.push(Item { s: t.s, e: t.e, path, kind: if i + 1 == n { kind } else { "Table" } });
        }
    }
}
fn key_text(raw: &str) -> String {
    reftoml::parse_tbl(&format!("{raw} = 1\n"), Ver::V11).map_or_else(|_| raw.into(), |t| t[0].0.clone())
}
fn items(text: &str, doc: &reftoml::Doc) -> Vec<Item> {
    let mut w = Walk { text, toks: doc.toks.iter().filter(|t| !matches!(t.t, T::Comment | T::Newline)).collect(), at: 0, items: vec![] };
    let mut elements: HashMap<Vec<String>, usize> = HashMap::new();
    let mut header: Vec<A> = vec![];
    for st in &doc.stmts {
        while w.toks[w.at].s < st.start {
            w.at += 1;
        }
        match st.kind {
            StmtKind::KeyValue => w.key_value(&header),
            _ => {
                if st.kind == StmtKind::Aot {
                    *elements.entry(st.path.clone()).or_default() += 1;
                    elements.retain(|p, _| !(p.len() > st.path.len() && p.starts_with(&st.path)));
                }
                header.clear();
                let mut keys = vec![];
                while w.toks.get(w.at).is_some_and(|t| t.s < st.end) {
                    let t = w.next();
                    if t.t == T::Key {
                        keys.push(t);
                    }
                }
                for (i, t) in keys.iter().enumerate() {
                    header.push(A::K(st.path[i].clone()));
                    let n = elements.get(&st.path[..i + 1]).copied();
                    let kind = "Table";
                    if let Some(n) = n {
                        header.push(A::I(n - 1));
                    }
                    w.items.push(Item { s: t.s, e: t.e, path: header.clone(), kind });
                }
            }
        }
    }
    w.items
}
fn shown(path: &[A]) -> String {
    let mut out = String::new();
    for a in path {
        match a {
            A::I(n) => out += &format!("[{n}]"),
            A::K(k) => {
                if !out.is_empty() {
                    out.push('.');
                }
                if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') {
                    out += k;
                } else {
                    out.push('"');
                    for c in k.chars() {
                        match c {
                            '"' | '\\' => out.extend(['\\', c]),
                            '\n' => out += "\\n",
                            '\t' => out += "\\t",
                            '\r' => out += "\\r",
                            '\u{8}' => out += "\\b",
                            '\u{c}' => out += "\\f",
                            c if c.is_control() => out += &format!("\\u{:04X}", c as u32),
                            c => out.push(c),
                        }
                    }
                    out.push('"');
                }
            }
        }
    }
    out
}
fn c39_keys(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = gn::plain(src);
    d.attach(ctx);
    ctx.sample(&d.text);
    let dir = d.workspace(ctx);
    let uri = url(&dir.join(&d.file));
    let enc = [Enc::U16, Enc::U8, Enc::U32][src.weighted(&[4, 1, 1])];
    let s = Srv::new(ctx, enc, true);
    s.open(ctx, &uri, 1, &d.text);
    let v = s.request(ctx, "tomlVersion", &uri, 0, 0).or_else(|e| fail("error", e))?;
    let ver = if v["tomlVersion"] == "v1.1.0" { Ver::V11 } else { Ver::V10 };
    let Ok(doc) = reftoml::parse(&d.text, ver) else { return Ok(()) };
    hovers(src, ctx, &s, &uri, &d.text, &doc, None)
}
/// A schema that these values conform to, with a title and description of its own at most places
fn schema(src: &mut Src, values: &[&V], at: &str) -> S {
    let kinds: BTreeSet<&str> = values.iter().map(|v| v.kind()).collect();
    let mut out = json!({});
    if src.chance(4, 5) {
        out["title"] = json!(format!("title of {at}"));
    }
    if src.chance(1, 2) {
        out["description"] = json!(format!("what {at} means"));
    }
    let forms: BTreeSet<Option<&str>> = values
        .iter()
        .map(|v| match v {
            V::Dt(d) => Some(match (d.date.is_some(), d.time.is_some(), d.offset.is_some()) {
                (true, true, true) => "date-time",
                (true, true, false) => "date-time-local",
                (true, false, _) => "date",
                _ => "time-local",
            }),
            _ => None,
        })
        .collect();
    if let (1, Some(Some(form))) = (forms.len(), forms.first()) {
        if src.chance(2, 3) {
            out["type"] = json!("string");
            out["format"] = json!(form);
        }
    }
    match (kinds.len() == 1).then(|| kinds.first().unwrap()) {
        Some(&"string") => out["type"] = json!("string"),
        Some(&"integer") => out["type"] = json!("integer"),
        Some(&"float") => out["type"] = json!("number"),
        Some(&"boolean") => out["type"] = json!("boolean"),
        Some(&"array") => {
            out["type"] = json!("array");
            let items: Vec<&V> = values.iter().filter_map(|v| if let V::Arr(a) = v { Some(a) } else { None }).flatten().collect();
            // sometimes the first elements have schemas of their own
            let first = if values.len() == 1 && src.chance(1, 3) { src.usize(0, items.len().min(3)) } else { 0 };
            if first > 0 {
                out["prefixItems"] = (0..first).map(|n| schema(src, &items[n..=n], &format!("{at}[{n}]"))).collect();
            }
            if items.len() > first && src.chance(4, 5) {
                out["items"] = schema(src, &items[first..], &format!("{at}[]"));
            }
        }
        Some(&"table") => {
            out["type"] = json!("object");
            let mut keys: Vec<(&String, &V)> = values.iter().filter_map(|v| if let V::Tbl(t) = v { Some(t) } else { None }).flatten().map(|(k, v)| (k, v)).collect();
            keys.sort_by_key(|k| k.0);
            let mut props = json!({});
            let mut required = vec![];
            let mut patterns = json!({});
            let mut rest: Vec<&V> = vec![];
            for same in keys.chunk_by(|a, b| a.0 == b.0) {
                let k = same[0].0;
                let all: Vec<&V> = same.iter().map(|k| k.1).collect();
                if src.chance(1, 12) && k.chars().all(|c| c.is_ascii_alphanumeric()) {
                    patterns[format!("^{k}$")] = schema(src, &all, &format!("{at}/{k}"));
                } else if src.chance(1, 12) {
                    rest.extend(all);
                } else if src.chance(5, 6) {
                    props[k] = schema(src, &all, &format!("{at}/{k}"));
                    if same.len() == values.len() && src.chance(1, 4) {
                        required.push(k);
                    }
                }
            }
            out["properties"] = props;
            out["required"] = json!(required);
            if patterns.as_object().is_some_and(|p| !p.is_empty()) {
                out["patternProperties"] = patterns;
            }
            if !rest.is_empty() {
                // what is not named is then described by this too
                let unnamed: Vec<&V> = keys.iter().filter(|k| out["properties"].get(k.0).is_none() && out["patternProperties"].get(format!("^{}$", k.0)).is_none()).map(|k| k.1).collect();
                out["additionalProperties"] = schema(src, &unnamed, &format!("{at}/*"));
            }
        }
        _ => {}
    }
    out
}
/// The schema of what is at the path
fn schema_at<'a>(root: &'a S, path: &[A]) -> Option<&'a S> {
    path.iter().try_fold(root, |s, a| match a {
        A::K(k) => s["properties"].as_object()?.get(k).or_else(|| s["patternProperties"].get(format!("^{k}$"))).or_else(|| s.get("additionalProperties")),
        A::I(n) => s["prefixItems"].get(n).or_else(|| s.get("items")),
    })
}
fn c39_schema(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut d = gn::plain(src);
    if !d.valid {
        return Ok(());
    }
    let ver = if d.config.contains("v1.1.0") { Ver::V11 } else { Ver::V10 };
    let Ok(doc) = reftoml::parse(&d.text, ver) else { return Ok(()) };
    let root = schema(src, &[&V::Tbl(doc.root.clone())], "");
    d.config += "[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n";
    d.files.push(("s.json".into(), root.to_string()));
    d.attach(ctx);
    ctx.sample(&d.text);
    let dir = d.workspace(ctx);
    let uri = url(&dir.join(&d.file));
    let s = Srv::new(ctx, Enc::U16, true);
    s.open(ctx, &uri, 1, &d.text);
    hovers(src, ctx, &s, &uri, &d.text, &doc, Some(&root))
}
fn hovers(src: &mut Src, ctx: &mut Ctx, s: &Srv, uri: &tower_lsp::lsp_types::Url, text: &str, doc: &reftoml::Doc, schema: Option<&S>) -> CaseResult {
    let all = items(text, doc);
    if all.len() > 2 {
        ctx.nontrivial(&text);
    }
    let mut seen_o12 = false;
    for i in &all {
        let word = &text[i.s..i.e];
        let ends: Vec<usize> = word.char_indices().map(|(n, _)| n).filter(|n| *n == 0 || word.as_bytes()[n - 1..=*n].iter().all(|b| b.is_ascii_graphic())).collect();
        let inside = i.s + *src.pick(&ends);
        let at = position(text, inside, s.enc);
        let h = s.request(ctx, "hover", uri, at.0, at.1).or_else(|e| fail("error", e))?;
        let md = h["contents"]["value"].as_str().unwrap_or_default().to_string();
        let line = |p: &str| md.lines().find_map(|l| l.strip_prefix(p)?.strip_suffix('`').map(str::to_string));
        let (keys, value) = (line("Keys: `"), line("Value: `"));
        if let Some(root) = schema {
            let o12 = md.is_empty() && i.kind.starts_with("Local") | i.kind.starts_with("Offset") && schema_at(root, &i.path).is_some_and(|h| h["type"].is_null());
            if o12 {
                seen_o12 = true;
                continue;
            }
        }
        ensure!(keys.as_deref() == Some(&shown(&i.path)), "keys", "on {word:?} at {}:{}: {keys:?}, not {:?}\n{md}", at.0, at.1, shown(&i.path));
        let value = value.map(|v| v.strip_suffix('?').map_or(v.clone(), str::to_string));
        let untyped = schema.and_then(|r| schema_at(r, &i.path)).is_some_and(|h| h["type"].is_null());
        let any = untyped && value.as_ref().is_some_and(|v| v.trim_matches(['(', ')']).split(" | ").any(|k| k == i.kind));
        ensure!(any || value.as_deref() == Some(i.kind), "value-type", "on {word:?} at {}:{}: {value:?}, not {:?}\n{md}", at.0, at.1, i.kind);
        let Some(r) = h["range"].as_object() else { return fail("range", "no range") };
        let p = |p: &S| offset(text, p["line"].as_u64().unwrap() as u32, p["character"].as_u64().unwrap() as u32, s.enc);
        // between two tokens it may be the range of either
        let (first, last) = if inside > i.s { (i.s, i.e) } else { (i.s, i.s) };
        ensure!(p(&r["start"]).is_some_and(|a| a <= first) && p(&r["end"]).is_some_and(|b| b >= last), "range", "on {word:?} at {}:{}: the range {r:?} is elsewhere", at.0, at.1);
        if let Some(root) = schema {
            let here = schema_at(root, &i.path);
            let own = |k: &str| here.and_then(|h| h[k].as_str());
            // what has no words of its own may be shown with those of an array around it
            let silent = own("title").is_none() && own("description").is_none();
            let arrays: Vec<&S> = (0..i.path.len()).filter(|n| silent && matches!(i.path[*n], A::I(_))).filter_map(|n| schema_at(root, &i.path[..n])).collect();
            let fits = |k: &str, got: Option<&str>| got == own(k) || arrays.iter().any(|h| got == h[k].as_str());
            let title = md.lines().find_map(|l| l.strip_prefix("#### "));
            ensure!(fits("title", title), "title", "on {word:?} at {}:{}: {title:?}, not {:?}\n{md}", at.0, at.1, own("title"));
            let description = md.lines().find(|l| l.starts_with("what "));
            ensure!(fits("description", description), "description", "on {word:?} at {}:{}: {description:?}, not {:?}\n{md}", at.0, at.1, own("description"));
        }
    }
    ensure!(!seen_o12, "date-time-untyped", "no hover on a date-time under a schema without a type");
    Ok(())
}
/// {text, schema}
fn c39_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let text = j["text"].as_str().unwrap();
    let schema = j["schema"].to_string();
    let config = if j["schema"].is_null() { "" } else { "[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n" };
    let dir = workspace(ctx, Some(&format!("schema.catalog = {{ paths = [] }}\n{config}")), &[("s.json", &schema)]);
    let uri = url(&dir.join("a.toml"));
    let s = Srv::new(ctx, Enc::U16, true);
    s.open(ctx, &uri, 1, text);
    hovers(&mut Src::random(1), ctx, &s, &uri, text, &reftoml::parse(text, Ver::V10).ok().unwrap(), Some(&j["schema"]).filter(|s| !s.is_null()))
}
// ---------------------------------------------------------------- C40
fn c40_schema(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut d = gn::plain(src);
    if !d.valid {
        return Ok(());
    }
    let ver = if d.config.contains("v1.1.0") { Ver::V11 } else { Ver::V10 };
    let Ok(doc) = reftoml::parse(&d.text, ver) else { return Ok(()) };
    let root = schema(src, &[&V::Tbl(doc.root.clone())], "");
    let json = if src.bool() { root.to_string() } else { serde_json::to_string_pretty(&root).unwrap() };
    d.config += "[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n";
    // O14: columns in the schema are not those of the client
    let json = json.chars().map(|c| if c.is_ascii() { c.to_string() } else { c.encode_utf16(&mut [0; 2]).iter().map(|u| format!("\\u{u:04x}")).collect() }).collect();
    d.files.push(("s.json".into(), json));
    d.attach(ctx);
    ctx.sample(&d.text);
    let dir = d.workspace(ctx);
    let uri = url(&dir.join(&d.file));
    let enc = [Enc::U16, Enc::U8, Enc::U32][src.weighted(&[4, 1, 1])];
    let s = Srv::new(ctx, enc, true);
    s.open(ctx, &uri, 1, &d.text);
    definitions(ctx, &s, &dir, &d.text, &doc, &d.files[0].1)
}
fn definitions(ctx: &mut Ctx, s: &Srv, dir: &std::path::Path, text: &str, doc: &reftoml::Doc, json: &str) -> CaseResult {
    let root: S = serde_json::from_str(json).unwrap();
    let uri = url(&dir.join("a.toml"));
    let all = items(text, doc);
    let (mut led, mut seen_o13) = (0, false);
    for i in &all {
        let at = position(text, i.s, s.enc);
        let a = s.request(ctx, "typeDefinition", &uri, at.0, at.1).or_else(|e| fail("error", e))?;
        let word = format!("on {:?} at {}:{} ({})", &text[i.s..i.e], at.0, at.1, shown(&i.path));
        let here = schema_at(&root, &i.path);
        let Some(to) = a["uri"].as_str() else {
            let date = i.kind.starts_with("Local") || i.kind.starts_with("Offset");
            if date && here.is_some_and(|h| h["type"].is_null()) {
                seen_o13 = true;
                continue;
            }
            ensure!(here.is_none(), "nowhere", "{word}: no answer");
            continue;
        };
        let want = format!("{}#L{}", url(&dir.join("s.json")), a["range"]["start"]["line"].as_u64().unwrap() + 1);
        ensure!(to == want, "uri", "{word}: leads to {to}, not {want}");
        let p = |p: &S| offset(json, p["line"].as_u64().unwrap() as u32, p["character"].as_u64().unwrap() as u32, s.enc);
        let (Some(x), Some(y)) = (p(&a["range"]["start"]), p(&a["range"]["end"])) else {
            return fail("range", format!("{word}: {a} is not in the schema"));
        };
        let mut target: Option<S> = json.get(x..y).and_then(|t| serde_json::from_str(t).ok());
        let mut named = false;
        if let (Some(S::String(_)), Some(rest)) = (&target, json[y..].trim_start().strip_prefix(':')) {
            // the name of a property or pattern
            named = true;
            target = serde_json::Deserializer::from_str(rest).into_iter().next().and_then(|t| t.ok());
        }
        let by_name = matches!(i.path.last(), Some(A::K(k)) if schema_at(&root, &i.path[..i.path.len() - 1]).is_some_and(|h| h["properties"].get(k).is_some()));
        ensure!(target.is_some(), "range", "{word}: leads to {:?}", json.get(x..y));
        ensure!(!by_name || matches!(i.kind, "Array" | "Table") || named, "unnamed", "{word}: leads to {:?} and not to the name", json.get(x..y));
        ensure!(target.as_ref() == here, "elsewhere", "{word}: leads to {target:?}, not {here:?}");
        led += 1;
    }
    ensure!(!seen_o13, "date-time-untyped", "a date-time under a schema without a type leads nowhere");
    if led > 2 {
        ctx.nontrivial(&(text, json));
    }
    Ok(())
}
/// {text, schema (a value, or the text of the file)}
fn c40_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let text = j["text"].as_str().unwrap();
    let schema = j["schema"].as_str().map_or_else(|| j["schema"].to_string(), str::to_string);
    let dir = workspace(ctx, Some("schema.catalog = { paths = [] }\n[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n"), &[("s.json", &schema), ("a.toml", text)]);
    let s = Srv::new(ctx, Enc::U16, true);
    s.open(ctx, &url(&dir.join("a.toml")), 1, text);
    definitions(ctx, &s, &dir, text, &reftoml::parse(text, Ver::V10).ok().unwrap(), &schema)
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C40",
        rule: "a valid document of which more than two keys and values lead to a schema; distinct by text and schema",
        assumptions: &["the position is the first character of a key or scalar"],
        streams: vec![Stream { name: "schema", quick: 2_000, thorough: 200_000, case: c40_schema }],
        probe: Some(c40_probe),
        min_nontrivial: 300,
    }, Prop {
        id: "C39",
        rule: "a valid document with more than two keys and values; distinct by text",
        assumptions: &["the position is the first character of a key or scalar"],
        streams: vec![Stream { name: "keys", quick: 2_000, thorough: 200_000, case: c39_keys }, Stream { name: "schema", quick: 2_000, thorough: 200_000, case: c39_schema }],
        probe: Some(c39_probe),
        min_nontrivial: 300,
    }]
}
