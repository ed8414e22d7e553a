//! C23: accepting completions
use crate::srv::*;
use serde_json::{Value as S, json};
use tower_lsp::lsp_types as l;
use vt_core::engine::*;
use vt_core::ensure;
use vt_core::reftoml::{self, Tbl, V, Ver};

/// a schema
#[derive(Clone, Debug)]
enum T {
    Bool,
    /// TOML literals
    Enum(Vec<String>),
    Const(String),
    Int(Option<i64>),
    Str(Option<String>),
    Arr(Box<T>),
    Tbl(Vec<(String, T)>),
    /// one of several kinds
    Any(Vec<T>),
}
fn value(lit: &str) -> V {
    reftoml::parse_tbl(&format!("a = {lit}\n"), Ver::V10).expect("a literal").remove(0).1
}
fn as_json(lit: &str) -> S {
    match value(lit) {
        V::Str(s) => json!(s),
        V::Int(i) => json!(i),
        V::Bool(b) => json!(b),
        _ => unreachable!(),
    }
}
fn same(a: &V, b: &V) -> bool {
    reftoml::diff(a, b, false, "").is_none()
}
impl T {
    fn json(&self, src: &mut Src, defs: &mut Vec<S>) -> S {
        let mut j = match self {
            T::Bool => json!({"type": "boolean"}),
            T::Enum(v) => json!({"enum": v.iter().map(|x| as_json(x)).collect::<Vec<_>>()}),
            T::Const(c) => json!({"const": as_json(c)}),
            T::Int(d) => d.map_or(json!({"type": "integer"}), |d| json!({"type": "integer", "default": d})),
            T::Str(d) => d.as_ref().map_or(json!({"type": "string"}), |d| json!({"type": "string", "default": d})),
            T::Arr(t) => json!({"type": "array", "items": t.json(src, defs)}),
            T::Tbl(p) => {
                let mut q: serde_json::Map<String, S> = p.iter().map(|(k, t)| (k.clone(), t.json(src, defs))).collect();
                if src.chance(1, 6) && p.len() > 2 {
                    // the properties are spread over branches
                    let a: serde_json::Map<String, S> = p[..p.len() / 2].iter().map(|e| (e.0.clone(), q.remove(&e.0).unwrap())).collect();
                    json!({"type": "object", "properties": q, "allOf": [{"type": "object", "properties": a}]})
                } else {
                    json!({"type": "object", "properties": q})
                }
            }
            T::Any(v) => {
                let v: Vec<S> = v.iter().map(|t| t.json(src, defs)).collect();
                json!({*src.pick(&["anyOf", "oneOf"]): v})
            }
        };
        if src.chance(1, 8) {
            j["description"] = json!("what is this?");
        }
        if let T::Tbl(p) = self
            && src.chance(1, 4)
        {
            j["required"] = json!([src.pick(p).0]);
        }
        if let T::Enum(v) = self
            && v.iter().all(|x| x.starts_with('"'))
            && src.bool()
        {
            j["type"] = json!("string");
        }
        match src.below(8) {
            0 | 1 => {
                defs.push(j);
                json!({"$ref": format!("#/$defs/d{}", defs.len() - 1)})
            }
            2 => json!({*src.pick(&["allOf", "anyOf", "oneOf"]): [j]}),
            _ => j,
        }
    }
    /// is the value one that the schema allows?
    fn accepts(&self, v: &V) -> bool {
        match (self, v) {
            (T::Bool, V::Bool(_)) | (T::Int(_), V::Int(_)) | (T::Str(_), V::Str(_)) => true,
            (T::Enum(e), v) => e.iter().any(|x| same(&value(x), v)),
            (T::Const(c), v) => same(&value(c), v),
            (T::Arr(t), V::Arr(a)) => a.iter().all(|v| t.accepts(v)),
            (T::Any(a), v) => a.iter().any(|t| t.accepts(v)),
            (T::Tbl(p), V::Tbl(t)) => t.iter().all(|(k, v)| p.iter().find(|p| p.0 == *k).is_none_or(|p| p.1.accepts(v))),
            _ => false,
        }
    }
    /// what a user may write between quotes
    fn text(&self) -> Option<String> {
        let of = |x: &String| x.strip_prefix('"').and_then(|x| x.strip_suffix('"')).filter(|x| !x.contains('\\')).map(|x| x.to_string());
        match self {
            T::Str(_) => Some(String::new()),
            T::Enum(v) => v.iter().find_map(of),
            T::Const(c) => of(c),
            T::Any(v) => v.iter().find_map(|t| t.text()),
            _ => None,
        }
    }
    /// the values that must be offered
    fn offers(&self) -> Vec<String> {
        match self {
            T::Bool => vec!["true".into(), "false".into()],
            T::Enum(v) => v.clone(),
            T::Const(c) => vec![c.clone()],
            T::Any(v) => v.iter().flat_map(|t| t.offers()).collect(),
            _ => vec![],
        }
    }
    fn lit(&self, src: &mut Src) -> String {
        match self {
            T::Bool => src.pick(&["true", "false"]).to_string(),
            T::Enum(v) => src.pick(v).clone(),
            T::Const(c) => c.clone(),
            T::Int(_) => src.below(100).to_string(),
            T::Str(_) => src.pick(&["\"\"", "\"x\"", "'é'"]).to_string(),
            T::Any(v) => src.pick(v).lit(src),
            T::Arr(t) => {
                let v: Vec<String> = (0..src.below(3)).map(|_| t.lit(src)).collect();
                format!("[{}]", v.join(", "))
            }
            T::Tbl(p) => {
                let mut p: Vec<_> = p.iter().collect();
                src.shuffle(&mut p);
                p.truncate(src.below(3) as usize);
                let v: Vec<String> = p.iter().map(|(k, t)| format!("{} = {}", key(k), t.lit(src))).collect();
                if v.is_empty() { "{}".into() } else { format!("{{ {} }}", v.join(", ")) }
            }
        }
    }
}
fn key(k: &str) -> String {
    if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') { k.into() } else { format!("{k:?}") }
}
fn leaf(src: &mut Src) -> T {
    const LITS: &[&str] = &["\"x\"", "\"y z\"", "\"xy\"", "3", "-1", "\"é\"", "\"\"", "\"a\\\"b\"", "true", "42", "\"日本\"", "\"c\\\\d\"", "\"l\\nm\"", "\"$1\"", "\"x}\""];
    match src.below(7) {
        6 => {
            let mut v = vec![T::Bool, T::Int(None), T::Enum(vec!["\"x\"".into(), "\"z z\"".into()]), T::Arr(Box::new(T::Int(None)))];
            src.shuffle(&mut v);
            v.truncate(src.usize(2, 3));
            T::Any(v)
        }
        0 => T::Bool,
        1 | 2 => {
            let mut v: Vec<String> = LITS.iter().map(|s| s.to_string()).collect();
            src.shuffle(&mut v);
            v.truncate(src.usize(1, 4));
            T::Enum(v)
        }
        3 => T::Const(src.pick(LITS).to_string()),
        4 => T::Int(src.bool().then(|| src.below(50) as i64)),
        _ => T::Str(src.bool().then(|| src.pick(&["d", "é", ""]).to_string())),
    }
}
const KEYS: &[&str] = &["b", "be", "bee", "c-1", "q r", "x.y", "é", "tab", "t", "u_2", "A", "9", "name", "日本"];
fn table(src: &mut Src, depth: u32) -> T {
    let mut ks: Vec<String> = KEYS.iter().map(|s| s.to_string()).collect();
    src.shuffle(&mut ks);
    ks.truncate(src.usize(2, 6));
    T::Tbl(
        ks.into_iter()
            .map(|k| {
                let t = match src.below(8) {
                    0 | 1 | 2 if depth < 2 => table(src, depth + 1),
                    3 => T::Arr(Box::new(if depth < 2 && src.bool() { table(src, depth + 1) } else { leaf(src) })),
                    _ => leaf(src),
                };
                (k, t)
            })
            .collect(),
    )
}
struct Sec {
    path: Vec<String>,
    aot: bool,
    props: Vec<(String, T)>,
    lines: Vec<(String, String)>,
    /// keys with a section of their own
    subs: Vec<String>,
}
fn fill(src: &mut Src, props: &[(String, T)], path: Vec<String>, aot: bool, secs: &mut Vec<Sec>) {
    let at = secs.len();
    secs.push(Sec { path: path.clone(), aot, props: props.to_vec(), lines: vec![], subs: vec![] });
    for (k, t) in props {
        if !src.bool() {
            continue;
        }
        let mut sub = path.clone();
        sub.push(k.clone());
        match t {
            T::Tbl(p) if src.chance(2, 3) => {
                secs[at].subs.push(k.clone());
                fill(src, p, sub, false, secs);
            }
            T::Arr(t) if path.is_empty() && matches!(**t, T::Tbl(_)) && src.chance(2, 3) => {
                let T::Tbl(p) = &**t else { unreachable!() };
                secs[at].subs.push(k.clone());
                fill(src, p, sub, true, secs);
            }
            _ => {
                let l = t.lit(src);
                secs[at].lines.push((k.clone(), l));
            }
        }
    }
}
/// the text; `line` is put at the end of, or among, the lines of a section
fn render(secs: &[Sec], line: Option<(usize, usize, &str)>, notes: bool) -> String {
    let mut out = String::new();
    for (i, s) in secs.iter().enumerate() {
        if !s.path.is_empty() {
            let p = s.path.iter().map(|k| key(k)).collect::<Vec<_>>().join(".");
            out += &if s.aot { format!("\n[[{p}]]\n") } else { format!("\n[{p}]\n") };
        }
        for n in 0..=s.lines.len() {
            if let Some((j, m, l)) = line
                && (i, n) == (j, m)
            {
                out += l;
                out.push('\n');
            }
            if let Some((k, v)) = s.lines.get(n) {
                out += &format!("{} = {v}{}\n", key(k), if notes && n % 2 == 0 { " # é note" } else { "" });
            }
        }
    }
    out
}
fn nav<'a>(t: &'a mut Tbl, path: &[String]) -> Option<&'a mut Tbl> {
    let Some(k) = path.first() else { return Some(t) };
    let v = &mut t.iter_mut().find(|e| e.0 == *k)?.1;
    let sub = match v {
        V::Tbl(t) => t,
        V::Arr(a) => match a.last_mut()? {
            V::Tbl(t) => t,
            _ => return None,
        },
        _ => return None,
    };
    nav(sub, &path[1..])
}
/// a snippet as the client inserts it, and where it puts the cursor first
fn expand(snippet: &str) -> (String, usize) {
    let c: Vec<char> = snippet.chars().collect();
    let (mut out, mut stops) = (String::new(), vec![]);
    let mut i = 0;
    let mut open = 0;
    while i < c.len() {
        match c[i] {
            '\\' if i + 1 < c.len() && matches!(c[i + 1], '$' | '}' | '\\') => {
                out.push(c[i + 1]);
                i += 1;
            }
            '$' if c.get(i + 1).is_some_and(|x| x.is_ascii_digit()) => {
                stops.push((c[i + 1] == '0', out.len()));
                i += 1;
            }
            '$' if c.get(i + 1) == Some(&'{') && c.get(i + 2).is_some_and(|x| x.is_ascii_digit()) && c.get(i + 3) == Some(&':') => {
                stops.push((c[i + 2] == '0', out.len()));
                open += 1;
                i += 3;
            }
            '}' if open > 0 => open -= 1,
            x => out.push(x),
        }
        i += 1;
    }
    stops.sort();
    let at = stops.first().map_or(out.len(), |s| s.1);
    (out, at)
}
/// the text after the item is accepted, and where the cursor is in it
fn accept(text: &str, cursor: usize, item: &S, enc: Enc) -> Result<(String, usize), String> {
    let e = &item["textEdit"];
    let (new, at) = match e["newText"].as_str() {
        Some(t) if item["insertTextFormat"] == json!(2) => expand(t),
        Some(t) => (t.to_string(), t.len()),
        // without an edit the client puts the text at the cursor
        None => {
            let t = item["insertText"].as_str().or(item["label"].as_str()).unwrap_or_default();
            return Ok((format!("{}{t}{}", &text[..cursor], &text[cursor..]), cursor + t.len()));
        }
    };
    let range: l::Range = serde_json::from_value(if e["range"].is_null() { e["replace"].clone() } else { e["range"].clone() }).map_err(|e| e.to_string())?;
    let extra: Vec<l::TextEdit> = serde_json::from_value(item["additionalTextEdits"].clone()).unwrap_or_default();
    // a mark no text has shows where the edit went
    let mut edits = vec![l::TextEdit { range, new_text: format!("{}\u{1}{}", &new[..at], &new[at..]) }];
    // of edits at one place those before come first
    edits.splice(0..0, extra);
    let t = apply(text, &edits, enc)?;
    let at = t.find('\u{1}').unwrap();
    Ok((t.replacen('\u{1}', "", 1), at))
}
fn enc(src: &mut Src) -> Enc {
    [Enc::U16, Enc::U8, Enc::U32][src.weighted(&[4, 1, 1])]
}
const CONFIG: &str = "schema.catalog = { paths = [] }\n[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n";

fn c23_accept(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let T::Tbl(root) = table(src, 0) else { unreachable!() };
    let mut defs = vec![];
    let mut schema = T::Tbl(root.clone()).json(src, &mut defs);
    schema["$defs"] = S::Object(defs.into_iter().enumerate().map(|(i, d)| (format!("d{i}"), d)).collect());
    let mut secs = vec![];
    fill(src, &root, vec![], false, &mut secs);
    let at = src.usize(0, secs.len() - 1);
    let s = &secs[at];
    let absent: Vec<&(String, T)> = s.props.iter().filter(|p| !s.subs.contains(&p.0) && !s.lines.iter().any(|l| l.0 == p.0)).collect();
    if absent.is_empty() {
        ctx.label("not generated: no key is missing");
        return Ok(());
    }
    let (k, t) = (*src.pick(&absent)).clone();
    let n = src.usize(0, s.lines.len());
    // the line with the cursor, what is completed, and under which key
    enum What {
        Key(Vec<(String, T)>),
        Value(T),
        Element(T),
    }
    let (pre, post, under, what, name): (String, String, Vec<String>, What, &str) = match (src.below(6), &t) {
        (0, _) => (String::new(), String::new(), vec![], What::Key(absent.iter().map(|p| (*p).clone()).collect()), "a key"),
        (1 | 2, T::Tbl(p)) => {
            let mut path = vec![k.clone()];
            let mut p = p.clone();
            while let Some((k, T::Tbl(q))) = p.iter().find(|e| matches!(e.1, T::Tbl(_))).cloned()
                && src.chance(1, 3)
            {
                path.push(k);
                p = q;
            }
            (format!("{}.", path.iter().map(|k| key(k)).collect::<Vec<_>>().join(".")), String::new(), path, What::Key(p), "a key behind a dot")
        }
        (3 | 4, T::Tbl(p)) => {
            let mut have = p.clone();
            src.shuffle(&mut have);
            have.truncate(src.usize(0, 2).min(p.len() - 1));
            let missing: Vec<(String, T)> = p.iter().filter(|e| !have.iter().any(|h| h.0 == e.0)).cloned().collect();
            let lines: Vec<String> = have.iter().map(|(k, t)| format!("{} = {}", key(k), t.lit(src))).collect();
            let mut pre = format!("{} = {{ ", key(&k));
            if !lines.is_empty() {
                pre += &format!("{}, ", lines.join(", "));
            }
            match src.below(2) {
                0 => (pre, " }".into(), vec![k.clone()], What::Key(missing), "a key in an inline table"),
                _ => {
                    let (sub, t) = src.pick(&missing).clone();
                    (format!("{pre}{} ={}", key(&sub), src.pick(&["", " "])), " }".into(), vec![k.clone(), sub], What::Value(t), "a value in an inline table")
                }
            }
        }
        (1 | 2 | 3, T::Arr(t)) => {
            let have: Vec<String> = (0..src.below(3)).map(|_| t.lit(src)).collect();
            let mut pre = format!("{} = [", key(&k));
            if !have.is_empty() {
                pre += &format!("{},{}", have.join(", "), src.pick(&["", " "]));
            }
            let post = "]".to_string();
            (pre, post, vec![k.clone()], What::Element((**t).clone()), "an element")
        }
        (4, _) => (format!("{}.", key(&k)), String::new(), vec![k.clone()], What::Value(t.clone()), "a value behind a dot"),
        _ => {
            let eq = *src.pick(&["=", " =", " = ", "= ", "  =  "]);
            (format!("{}{eq}", key(&k)), String::new(), vec![k.clone()], What::Value(t.clone()), "a value")
        }
    };
    if let (What::Value(T::Tbl(_)), "a value behind a dot") = (&what, name) {
        return Ok(());
    }
    // the beginning of a string, between its quotes
    let (mut pre, mut post, mut name) = (pre, post, name);
    let mut text_begun = None;
    if let What::Value(t) = &what
        && matches!(t, T::Enum(_) | T::Const(_))
        && pre.ends_with(['=', ' '])
        && src.chance(1, 3)
        && let Some(V::Str(x)) = t.offers().iter().map(|l| value(l)).find(|v| matches!(v, V::Str(_)))
        && !x.is_empty()
    {
        let x: String = x.chars().take(src.usize(0, 2)).filter(|c| !matches!(c, '"' | '\\' | '\n')).collect();
        pre += &format!("{}\"{x}", if pre.ends_with('=') { " " } else { "" });
        post = format!("\"{post}");
        name = "a value between quotes";
        text_begun = Some(x);
    }
    // the beginning of the word may be there
    let mut begun = String::new();
    match &what {
        What::Key(p) if src.chance(1, 3) => {
            let k: String = src.pick(p).0.chars().take_while(|c| c.is_ascii_alphanumeric()).take(src.usize(1, 2)).collect();
            if !k.is_empty() && !KEYS.contains(&&*k) {
                begun = k;
            }
        }
        _ => {}
    }
    let pre = pre + &begun;
    let notes = src.chance(1, 4);
    let before = reftoml::parse_tbl(&render(&secs, None, notes), Ver::V10).expect("the document without the line");
    let text = render(&secs, Some((at, n, &format!("{pre}\u{1}{post}"))), notes);
    let cursor = text.find('\u{1}').unwrap();
    let text = text.replacen('\u{1}', "", 1);
    ctx.attach("a.toml", &text);
    ctx.attach("s.json", &schema.to_string());
    let dir = workspace(ctx, Some(CONFIG), &[("s.json", &schema.to_string())]);
    let uri = url(&dir.join("a.toml"));
    let srv = Srv::new(ctx, enc(src), true);
    srv.open(ctx, &uri, 1, &text);
    let (line, ch) = position(&text, cursor, srv.enc);
    ctx.attach("request", &format!("completion at {line}:{ch} ({:?}), {name}", srv.enc));
    let a = srv.request(ctx, "completion", &uri, line, ch).or_else(|e| fail("error", e))?;
    let items: Vec<S> = a.as_array().or_else(|| a["items"].as_array()).cloned().unwrap_or_default();
    ctx.label(name);
    let labels: Vec<&str> = items.iter().map(|i| i["label"].as_str().unwrap_or_default()).collect();
    if !items.is_empty() {
        ctx.nontrivial(&(&text, schema.to_string(), cursor));
        ctx.sample(format!("{text}--- {line}:{ch} offers {labels:?}"));
    }
    let before_elements = |v: Option<&V>| match v {
        Some(V::Arr(a)) => a.len(),
        _ => 0,
    };
    let had = reftoml::parse_tbl(&text, Ver::V10).ok().map(|mut d| before_elements(nav(&mut d, &s.path).and_then(|t| t.iter().find(|e| e.0 == k)).map(|e| &e.1)));
    let mut keys = vec![];
    let mut values: Vec<V> = vec![];
    for i in &items {
        let label = i["label"].as_str().unwrap_or_default();
        let shown = || format!("accepting {label:?} ({}, extra {})", i["textEdit"], i["additionalTextEdits"]);
        let (mut got, mut at) = match accept(&text, cursor, i, srv.enc) {
            Ok(t) => t,
            Err(e) => return fail("bad-edits", format!("{}: {e}", shown())),
        };
        // keys are offered as properties; the user goes on with a value
        let is_key = i["kind"] == json!(5);
        let mut path = under.clone();
        let mut part: Option<T> = None;
        if is_key {
            let props: &[(String, T)] = match &what {
                What::Key(p) => p,
                What::Value(T::Tbl(p)) | What::Element(T::Tbl(p)) => p,
                _ => return fail("key-for-value", format!("the key {label:?} is offered for {name}")),
            };
            if name == "a key" && s.subs.iter().any(|s| s == label) {
                continue;
            }
            let Some((k, t)) = props.iter().find(|p| label == p.0 || label.starts_with(&format!("{} = ", p.0)) || label.starts_with(&format!("{} = ", key(&p.0)))) else {
                return fail("unknown-key", format!("{label:?} is offered for {name}, which is not a key that is missing there, among {labels:?}"));
            };
            path.push(k.clone());
            keys.push(k.clone());
            // a constant comes with its key
            if !label.starts_with(&format!("{k} = ")) && !label.starts_with(&format!("{} = ", key(k))) {
                let lit = t.lit(src);
                got.insert_str(at, &format!(" = {lit}"));
                at += lit.len();
            }
            part = Some(t.clone());
        }
        // of a string the user fills in the text
        if let What::Value(t) | What::Element(t) = &what
            && !is_key
            && i["insertTextFormat"] == json!(2)
            && i["textEdit"]["newText"].as_str().is_some_and(|t| t.contains("\"$1\"") || t.contains("'$1'"))
        {
            let Some(text) = t.text() else { continue };
            got.insert_str(at, &text);
        }
        let _ = at;
        let mut now = match reftoml::parse_tbl(&got, Ver::V10) {
            Ok(d) => d,
            Err(e) => return fail("invalid", format!("{} makes the document invalid ({e:?}):\n{got}", shown())),
        };
        // apart from the key that is completed nothing changes
        let top = path[0].clone();
        let Some(sec) = nav(&mut now, &s.path) else { return fail("data", format!("{} loses the table of the cursor:\n{got}", shown())) };
        let Some(ix) = sec.iter().position(|e| e.0 == top) else { return fail("wrong-place", format!("{} does not put {top:?} into the table of the cursor:\n{got}", shown())) };
        let v = sec.remove(ix).1;
        ensure!(reftoml::diff_tbl(&now, &before, false, "").is_none(), "data", "{} changes other data: {}\n{got}", shown(), reftoml::diff_tbl(&now, &before, false, "").unwrap_or_default());
        let whole = &s.props.iter().find(|p| p.0 == top).unwrap().1;
        ensure!(whole.accepts(&v), "not-accepted", "{} gives a value that the schema does not accept:\n{got}", shown());
        // the value is where it belongs
        let mut at = Some(&v);
        for k in &path[1..] {
            at = match at {
                Some(V::Tbl(t)) => t.iter().find(|e| e.0 == *k).map(|e| &e.1),
                Some(V::Arr(a)) => a.iter().find_map(|v| match v {
                    V::Tbl(t) => t.iter().find(|e| e.0 == *k).map(|e| &e.1),
                    _ => None,
                }),
                _ => None,
            };
        }
        let Some(at) = at else { return fail("wrong-place", format!("{} does not set {path:?}:\n{got}", shown())) };
        match (&what, &part) {
            (What::Element(t), _) => {
                let V::Arr(a) = &v else { return fail("wrong-place", format!("{}: no array:\n{got}", shown())) };
                ensure!(a.iter().all(|v| t.accepts(v)), "not-accepted", "{} gives an element that the schema does not accept:\n{got}", shown());
                if let Some(had) = had {
                    ensure!(a.len() == had + 1, "elements", "{} does not add one element:\n{got}", shown());
                }
                values.extend(a.iter().cloned());
            }
            (_, Some(t)) => ensure!(t.accepts(at), "not-accepted", "{} gives a value that the schema does not accept:\n{got}", shown()),
            (What::Value(t), None) => {
                ensure!(t.accepts(at), "not-accepted", "{} gives a value that the schema does not accept:\n{got}", shown());
                values.push(at.clone());
            }
            (What::Key(_), None) => {}
        }
    }
    // all that the schema names is offered
    match &what {
        What::Key(p) => {
            for (k, _) in p {
                // a word without a value makes an inline table swallow the lines behind it
                if !begun.is_empty() && !post.is_empty() && text[cursor..].contains(k.as_str()) {
                    continue;
                }
                ensure!(keys.contains(k) || !k.starts_with(&begun), "missing-key", "the key {k:?} is not offered for {name}, only {labels:?}");
            }
        }
        What::Value(t) | What::Element(t) => {
            for o in t.offers() {
                if let Some(x) = &text_begun
                    && !matches!(value(&o), V::Str(v) if !v.is_empty() && v.starts_with(x.as_str()))
                {
                    continue;
                }
                ensure!(values.iter().any(|v| same(v, &value(&o))), "missing-value", "{o} is not offered for {name}, only {labels:?}");
            }
        }
    }
    Ok(())
}
/// `text` has the cursor at `|`; `accept` names an item and what the text then is, `want` and `not` what is (not) offered
fn c23_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let with = j["text"].as_str().unwrap();
    let cursor = with.find('|').unwrap();
    let text = with.replacen('|', "", 1);
    let dir = workspace(ctx, Some(CONFIG), &[("s.json", &j["schema"].to_string())]);
    let uri = url(&dir.join("a.toml"));
    let srv = Srv::new(ctx, Enc::U16, true);
    srv.open(ctx, &uri, 1, &text);
    let (line, ch) = position(&text, cursor, srv.enc);
    let a = srv.request(ctx, "completion", &uri, line, ch).or_else(|e| fail("error", e))?;
    let items: Vec<S> = a.as_array().or_else(|| a["items"].as_array()).cloned().unwrap_or_default();
    let labels: Vec<&str> = items.iter().map(|i| i["label"].as_str().unwrap_or_default()).collect();
    ctx.attach("items", &format!("{items:#?}"));
    for l in j["want"].as_array().into_iter().flatten() {
        ensure!(labels.contains(&l.as_str().unwrap()), "missing", "{l} is not among {labels:?}");
    }
    for l in j["not"].as_array().into_iter().flatten() {
        ensure!(!labels.contains(&l.as_str().unwrap()), "offered", "{l} is among {labels:?}");
    }
    if let Some(l) = j["accept"][0].as_str() {
        let Some(i) = items.iter().find(|i| i["label"] == json!(l)) else { return fail("missing", format!("{l} is not among {labels:?}")) };
        let got = accept(&text, cursor, i, srv.enc).or_else(|e| fail("bad-edits", e))?.0;
        ensure!(json!(got) == j["accept"][1], "accepted", "accepting {l} gives\n{got}");
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "at least one item is offered and accepted",
        assumptions: &["a key item is completed by the user with `= value`; of snippets the text of the placeholders stays, empty quotes get a text the schema accepts"],
        streams: vec![Stream { name: "accept", quick: 2_000, thorough: 200_000, case: c23_accept }],
        probe: Some(c23_probe),
        min_nontrivial: 600,
    }]
}
