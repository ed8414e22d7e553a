//! C21, C22, C25, C26
use crate::generate as gn;
use crate::srv::*;
use serde_json::{Value as S, json};
use tower_lsp::lsp_types as l;
use vt_core::engine::*;
use vt_core::ensure;
use vt_core::gentoml as g;
use vt_core::reftoml::{self, StmtKind, T, Tbl, Tok, V, Ver};

fn enc(src: &mut Src) -> Enc {
    [Enc::U16, Enc::U8, Enc::U32][src.weighted(&[4, 1, 1])]
}
// ---------------------------------------------------------------- C22
fn c22_requests(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = gn::any(src);
    d.attach(ctx);
    let dir = d.workspace(ctx);
    let uri = url(&dir.join(&d.file));
    let enc = enc(src);
    let s = Srv::new(ctx, enc, src.bool());
    s.open(ctx, &uri, 1, &d.text);
    ctx.label(if d.valid { "valid" } else { "broken" });
    let mut answers = 0;
    let mut ask = |ctx: &mut Ctx, method: &str, at: (u32, u32)| -> CaseResult {
        ctx.attach("request", &format!("{method} at {}:{} ({enc:?})", at.0, at.1));
        match s.request(ctx, method, &uri, at.0, at.1) {
            Err(e) => fail(format!("error:{method}"), e),
            Ok(a) => {
                answers += !(a.is_null() || a.as_array().is_some_and(|a| a.is_empty())) as u32;
                match check_ranges(&a, uri.as_str(), &d.text, enc) {
                    Ok(()) => Ok(()),
                    Err(e) => fail(format!("range:{method}"), format!("{method} at {}:{}: {e}\n{a}", at.0, at.1)),
                }
            }
        }
    };
    for m in OF_DOCUMENT {
        ask(ctx, m, (0, 0))?;
    }
    for _ in 0..src.usize(1, 6) {
        let at = position(&d.text, gn::boundary(src, &d.text), enc);
        for m in AT_POSITION {
            ask(ctx, m, at)?;
        }
    }
    if src.chance(1, 12) {
        // a position that is not there (any more)
        let at = (lines(&d.text).len() as u32 + src.below(3), src.below(5));
        for m in AT_POSITION {
            ask(ctx, m, at)?;
        }
        let at = (src.below(lines(&d.text).len() as u32), 500);
        for m in AT_POSITION {
            ask(ctx, m, at)?;
        }
    }
    ask(ctx, "formatting", (0, 0))?;
    if answers > 5 {
        ctx.nontrivial(&(&d.file, &d.text));
    }
    ctx.sample(&d.text);
    Ok(())
}
/// {file, text, config, files, request, line, character}
fn c22_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let files: Vec<(String, String)> = j["files"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().map_or_else(|| v.to_string(), str::to_string))).collect()).unwrap_or_default();
    let d = gn::Doc {
        file: j["file"].as_str().unwrap_or("a.toml").into(),
        text: j["text"].as_str().unwrap().into(),
        config: j["config"].as_str().unwrap_or("schema.catalog = { paths = [] }\n").into(),
        files,
        valid: true,
    };
    let dir = d.workspace(ctx);
    let uri = url(&dir.join(&d.file));
    let s = Srv::new(ctx, Enc::U16, true);
    s.open(ctx, &uri, 1, &d.text);
    let m = j["request"].as_str().unwrap();
    match s.request(ctx, m, &uri, j["line"].as_u64().unwrap() as u32, j["character"].as_u64().unwrap() as u32) {
        Err(e) => fail(format!("error:{m}"), e),
        Ok(a) => check_ranges(&a, uri.as_str(), &d.text, Enc::U16).or_else(|e| fail(format!("range:{m}"), e)),
    }
}

// ---------------------------------------------------------------- C21
/// What the server reports for a document
fn report(s: &Srv, ctx: &Ctx, uri: &l::Url) -> Result<S, String> {
    let mut o = serde_json::Map::new();
    for m in ["documentSymbol", "foldingRange", "semanticTokens", "diagnostic", "tomlVersion", "documentLink"] {
        let r = s.request(ctx, m, uri, 0, 0)?;
        o.insert(m.into(), r);
    }
    for (line, ch) in [(0, 0), (1, 2), (3, 4)] {
        for m in ["hover", "completion", "references", "codeAction", "definition", "inlayHint"] {
            o.insert(format!("{m}{line}"), s.request(ctx, m, uri, line, ch)?);
        }
    }
    Ok(S::Object(o))
}
fn c21_histories(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n_docs = src.usize(1, 2);
    let mut docs: Vec<gn::Doc> = (0..n_docs).map(|_| if src.bool() { gn::plain(src) } else { gn::schema_doc(src) }).collect();
    // one workspace: one configuration and schema for both
    if n_docs == 2 {
        docs[1].file = "b.toml".into();
    }
    let config = docs[0].config.clone();
    let mut files: Vec<(String, String)> = docs[0].files.clone();
    if files.is_empty() {
        files = docs.last().unwrap().files.clone();
    }
    let frefs: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let dir = workspace(ctx, Some(&config), &frefs);
    let enc = enc(src);
    let pull = src.bool();
    let s = Srv::new(ctx, enc, pull);
    let uris: Vec<l::Url> = docs.iter().map(|d| url(&dir.join(&d.file))).collect();
    // the client's view
    let mut texts: Vec<Option<String>> = vec![None; n_docs];
    let mut versions = vec![0; n_docs];
    let mut log: Vec<String> = vec![];
    let steps = src.usize(2, 10);
    for _ in 0..steps {
        let i = src.usize(0, n_docs - 1);
        let uri = &uris[i];
        let Some(text) = texts[i].clone() else {
            versions[i] = if src.bool() { 1 } else { versions[i] + 1 };
            let t = if src.chance(2, 3) { docs[i].text.clone() } else { g::mutate(src, &docs[i].text) };
            log.push(format!("open {} {}\n{t}", docs[i].file, versions[i]));
            s.open(ctx, uri, versions[i], &t);
            texts[i] = Some(t);
            continue;
        };
        match src.weighted(&[8, 2, 2, 2, 3]) {
            0 => {
                versions[i] += src.range(1, 3) as i32;
                let mut list = vec![];
                let mut t = text;
                for _ in 0..[1, 2, 3][src.weighted(&[5, 1, 1])] {
                    t = match src.below(5) {
                        0 => gn::plain(src).text,
                        1 => format!("#:tombi toml-version = \"v1.{}.0\"\n\n{t}", src.below(2)),
                        2 => t.replacen("#:", "# :", 1),
                        3 => t.replace("\r\n", "\n").replace('\n', if src.bool() { "\r\n" } else { "\n" }),
                        _ => g::mutate(src, &t),
                    };
                    list.push(t.clone());
                }
                log.push(format!("change {} {}\n{}", docs[i].file, versions[i], list.join("\n---\n")));
                s.change(ctx, uri, versions[i], &list.iter().map(|t| t.as_str()).collect::<Vec<_>>());
                texts[i] = Some(t);
            }
            1 => {
                let with = src.bool();
                log.push(format!("save {}{}", docs[i].file, if with { " with its text" } else { "" }));
                s.save(ctx, uri, with.then_some(&text));
            }
            2 => {
                log.push(format!("close {}", docs[i].file));
                s.close(ctx, uri);
                texts[i] = None;
            }
            3 => {
                // formatting that the client does not apply, or does
                let edits = match s.format(ctx, uri) {
                    Ok(e) => e,
                    Err(e) => return fail("error:formatting", e),
                };
                let apply_it = src.bool();
                log.push(format!("format {}, {}", docs[i].file, if apply_it { "applied" } else { "not applied" }));
                if let Some(e) = edits
                    && apply_it
                {
                    let t = match apply(&text, &e, enc) {
                        Ok(t) => t,
                        Err(e) => return fail("edits", e),
                    };
                    versions[i] += 1;
                    s.change(ctx, uri, versions[i], &[&t]);
                    texts[i] = Some(t);
                }
            }
            _ => {
                // a look at it in between
                log.push(format!("look at {}", docs[i].file));
                if let Err(e) = report(&s, ctx, uri) {
                    return fail("error", e);
                }
            }
        }
    }
    let history = log.join("\n======\n");
    ctx.attach("tombi.toml", &config);
    for (p, t) in &files {
        ctx.attach(p, t);
    }
    ctx.attach("history.txt", &history);
    ctx.sample(&history);
    if log.iter().any(|l| l.starts_with("change")) {
        ctx.nontrivial(&(&config, &history));
    }
    for i in 0..n_docs {
        let Some(text) = &texts[i] else { continue };
        let fresh = Srv::new(ctx, enc, pull);
        fresh.open(ctx, &uris[i], versions[i], text);
        let (a, b) = match (report(&s, ctx, &uris[i]), report(&fresh, ctx, &uris[i])) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => return fail("error", e),
        };
        for (k, v) in b.as_object().unwrap() {
            if a[k] != *v {
                return fail(format!("differs:{k}"), format!("{k} of {} is\n{}\nA fresh server with the same text answers\n{v}\nthe text:\n{text}", docs[i].file, a[k]));
            }
        }
    }
    Ok(())
}
/// {text, then: [...texts or null for a formatting that is not applied]}
fn c21_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let dir = workspace(ctx, Some("schema.catalog = { paths = [] }\n"), &[]);
    let uri = url(&dir.join("a.toml"));
    let s = Srv::new(ctx, Enc::U16, true);
    let mut text = j["text"].as_str().unwrap().to_string();
    s.open(ctx, &uri, 1, &text);
    for (n, t) in j["then"].as_array().unwrap().iter().enumerate() {
        match t.as_str() {
            Some(t) => {
                text = t.into();
                s.change(ctx, &uri, n as i32 + 2, &[t]);
            }
            None => {
                let _ = s.format(ctx, &uri);
            }
        }
    }
    let fresh = Srv::new(ctx, Enc::U16, true);
    fresh.open(ctx, &uri, 1, &text);
    let (a, b) = (report(&s, ctx, &uri), report(&fresh, ctx, &uri));
    ensure!(a == b, "differs", "{a:?}\n{b:?}");
    Ok(())
}

// ---------------------------------------------------------------- C25
fn c25_edits(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut d = if src.chance(2, 3) { gn::plain(src) } else { gn::any(src) };
    let mut rules = String::new();
    for (r, vs) in [
        ("line-width", &["40", "80"][..]),
        ("indent-style", &["\"tab\""]),
        ("indent-sub-tables", &["true"]),
        ("line-ending", &["\"crlf\"", "\"lf\"", "\"auto\""]),
        ("string-quote-style", &["\"single\"", "\"preserve\""]),
        ("key-value-equals-sign-alignment", &["true"]),
        ("trailing-comment-alignment", &["true"]),
        ("comment-style", &["\"preserve\""]),
    ] {
        if src.chance(1, 6) {
            rules += &format!("format.rules.{r} = {}\n", src.pick(vs));
        }
    }
    let off = src.chance(1, 20);
    let mut tail = String::new();
    if src.chance(1, 4) {
        tail = format!("[[overrides]]\nfiles.include = [\"{}\"]\nformat.{}\n", src.pick(&["a.toml", "**/*.toml", "z.toml"]), if off { "enabled = false" } else { "rules.indent-width = 4" });
    }
    if d.file != "tombi.toml" {
        d.config = format!("{rules}{}{tail}", d.config);
    }
    d.attach(ctx);
    let dir = d.workspace(ctx);
    let path = dir.join(&d.file);
    let uri = url(&path);
    let enc = enc(src);
    let s = Srv::new(ctx, enc, src.bool());
    s.open(ctx, &uri, 1, &d.text);
    ctx.sample(&d.text);
    let edits = match s.format(ctx, &uri) {
        Ok(e) => e,
        Err(e) => return fail("error", e),
    };
    // what the formatter says, with the configuration of the file
    let (config, config_path) = serde_tombi::config::load_with_path(Some(path.parent().unwrap().into())).unwrap();
    let options = tombi_glob::get_format_options(&config, Some(&path), config_path.as_deref());
    let want: Option<String> = match options {
        None => None,
        Some(o) => {
            let store = tombi_schema_store::SchemaStore::new_with_options(tombi_schema_store::Options { offline: Some(true), strict: config.schema.as_ref().and_then(|s| s.strict()), ..Default::default() });
            let _ = ctx.block_on(store.load_config(&config, config_path.as_deref()));
            let f = tombi_formatter::Formatter::new(config.toml_version.unwrap_or_default(), &o, Some(itertools::Either::Right(&path)), &store);
            ctx.block_on(f.format(&d.text)).ok()
        }
    };
    match want {
        Some(w) if w != d.text => {
            ctx.label("edits");
            ctx.nontrivial(&(&d.config, &d.text));
            let Some(edits) = edits else {
                return fail("no-edits", format!("the formatter changes the text, but there are no edits. It gives\n{w}"));
            };
            match apply(&d.text, &edits, enc) {
                Err(e) => return fail("bad-edits", format!("{e}\n{edits:?}")),
                Ok(t) => ensure!(t == w, "differs", "the edits give\n{t:?}\nthe formatter gives\n{w:?}\n{edits:?}"),
            }
        }
        Some(_) => {
            ctx.label("formatted");
            ensure!(edits.as_ref().is_none_or(|e| e.is_empty()), "edits", "edits for a formatted text: {edits:?}");
        }
        None => {
            ctx.label("not formatted");
            ensure!(edits.as_ref().is_none_or(|e| e.is_empty()), "edits", "edits although formatting fails or is off: {edits:?}");
        }
    }
    Ok(())
}
/// {text, config}
fn c25_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let text = j["text"].as_str().unwrap();
    let dir = workspace(ctx, Some(j["config"].as_str().unwrap_or("schema.catalog = { paths = [] }\n")), &[]);
    let uri = url(&dir.join("a.toml"));
    let s = Srv::new(ctx, Enc::U16, true);
    s.open(ctx, &uri, 1, text);
    let edits = s.format(ctx, &uri).map_err(|e| Fail { sig: "error".into(), msg: e, files: vec![] })?;
    let got = apply(text, &edits.unwrap_or_default(), Enc::U16).map_err(|e| Fail { sig: "bad-edits".into(), msg: e, files: vec![] })?;
    ensure!(got == j["want"].as_str().unwrap(), "differs", "{got:?}");
    Ok(())
}

// ---------------------------------------------------------------- C26
fn tokens(a: &S) -> Vec<(u64, u64, u64, u64)> {
    let data: Vec<u64> = a["data"].as_array().map(|v| v.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
    let (mut line, mut ch) = (0, 0);
    data.chunks(5)
        .map(|c| {
            if c[0] > 0 {
                line += c[0];
                ch = 0;
            }
            ch += c[1];
            (line, ch, c[2], c[3])
        })
        .collect()
}
/// How a valid document folds
fn folded(text: &str, doc: &reftoml::Doc, regions: &[(usize, usize)], comments: &[(usize, usize)]) -> CaseResult {
    let mut open = vec![];
    for t in &doc.toks {
        match t.t {
            T::ArrOpen | T::InlOpen => open.push(t.s),
            T::ArrClose | T::InlClose => {
                let r = (open.pop().unwrap(), t.e);
                ensure!(regions.contains(&r), "fold-missing", "{:?} does not fold", &text[r.0..r.1]);
            }
            T::Scalar => ensure!(!text[t.s..t.e].contains('\n') || regions.contains(&(t.s, t.e)), "fold-missing", "{:?} does not fold", &text[t.s..t.e]),
            _ => {}
        }
    }
    for (i, h) in doc.stmts.iter().enumerate().filter(|h| h.1.kind != StmtKind::KeyValue) {
        let below = |s: &&reftoml::Stmt| s.kind == StmtKind::KeyValue || s.path.len() > h.path.len() && s.path.starts_with(&h.path);
        let end = doc.stmts[i + 1..].iter().take_while(below).last().unwrap_or(h).end;
        let next = doc.stmts[i + 1..].iter().find(|s| !below(s)).map_or(text.len(), |s| s.start);
        ensure!(regions.iter().any(|r| r.0 == h.start && (end..=next).contains(&r.1)), "fold-table", "the table {:?} does not fold to its end: {regions:?}", h.path);
    }
    let own: Vec<&Tok> = doc.toks.iter().filter(|t| t.t == T::Comment).collect();
    for c in comments {
        let (a, b) = (own.iter().any(|t| t.s == c.0), own.iter().any(|t| t.e == c.1));
        ensure!(a && b, "fold-comment", "{:?} folds, which is not from a comment to a comment", &text[c.0..c.1]);
        let other = doc.toks.iter().find(|t| t.s >= c.0 && t.s < c.1 && !matches!(t.t, T::Comment | T::Newline));
        ensure!(other.is_none(), "fold-comment", "{:?} folds as comments", &text[c.0..c.1]);
    }
    // blocks of lines that are comments and nothing else
    let alone = |t: &Tok| text[..t.s].rsplit('\n').next().unwrap().trim().is_empty();
    let mut i = 0;
    while i < own.len() {
        let mut j = i;
        while alone(own[i]) && j + 1 < own.len() && alone(own[j + 1]) && text[own[j].e..own[j + 1].s].matches('\n').count() == 1 {
            j += 1;
        }
        if j > i {
            let r = (own[i].s, own[j].e);
            ensure!(comments.iter().any(|c| c.0 <= r.0 && c.1 >= r.1), "fold-missing", "the comments {:?} do not fold", &text[r.0..r.1]);
        }
        i = j + 1;
    }
    Ok(())
}
/// How the tokens of a valid document are classified
fn classified(s: &Srv, text: &str, want: &[Tok], got: &[(u64, u64, u64, u64)]) -> CaseResult {
    let ls = lines(text);
    let mut types: Vec<Vec<&str>> = ls.iter().map(|l| vec![""; s.enc.len(l) as usize]).collect();
    let mut starts = std::collections::HashSet::new();
    for t in got {
        let name = s.legend.get(t.3 as usize).map_or("?", |n| n.as_str());
        starts.insert((t.0 as usize, t.1 as usize));
        for c in t.1..t.1 + t.2 {
            types[t.0 as usize][c as usize] = name;
        }
    }
    let mut header = false;
    for t in want {
        let x = &text[t.s..t.e];
        let name: &[&str] = match t.t {
            T::HdrOpen | T::AotOpen => {
                header = true;
                &["operator", ""]
            }
            T::HdrClose | T::AotClose => {
                header = false;
                &["operator", ""]
            }
            T::Newline | T::Dot | T::Comma => &["operator", ""],
            T::Eq | T::ArrOpen | T::ArrClose | T::InlOpen | T::InlClose => &["operator", ""],
            T::Comment => &["comment", "keyword"],
            T::Key if header => &["table"],
            T::Key => &["key"],
            T::Scalar if x.starts_with(['"', '\'']) => &["string"],
            T::Scalar if x == "true" || x == "false" => &["boolean"],
            T::Scalar => match reftoml::parse_dt(x, Ver::V11) {
                Ok((d, _)) => match (d.date.is_some(), d.time.is_some(), d.offset.is_some()) {
                    (true, true, true) => &["offsetDateTime"],
                    (true, true, false) => &["localDateTime"],
                    (true, false, _) => &["localDate"],
                    _ => &["localTime"],
                },
                Err(_) => &["number"],
            },
        };
        if t.t == T::Newline {
            continue;
        }
        let (a, b) = (position(text, t.s, s.enc), position(text, t.e, s.enc));
        for line in a.0..=b.0 {
            let row = &types[line as usize];
            let from = if line == a.0 { a.1 as usize } else { 0 };
            let to = if line == b.0 { b.1 as usize } else { row.len() };
            for c in &row[from..to] {
                ensure!(name.contains(c), "token-type", "{x:?} at {line}:{from} is {c:?} and not {name:?}");
            }
            ensure!(from >= to || name.contains(&"") || starts.contains(&(line as usize, from)), "token-start", "no token starts at {line}:{from} where {x:?} is");
        }
    }
    Ok(())
}
/// string, number, boolean, array, object
fn symbol_kind(v: &V) -> u32 {
    match v {
        V::Int(_) | V::Float(_) => 16,
        V::Bool(_) => 17,
        V::Arr(_) => 18,
        V::Tbl(_) => 19,
        _ => 15,
    }
}
fn symbol_tree(a: &S) -> S {
    let mut v: Vec<S> = vec![];
    for s in a.as_array().map_or(&[][..], |v| v) {
        v.push(json!([s["name"], s["kind"], symbol_tree(&s["children"])]));
    }
    v.sort_by_key(|s| s.to_string());
    S::Array(v)
}
fn want_tree(t: &Tbl) -> S {
    fn value(v: &V) -> S {
        match v {
            V::Tbl(t) => want_tree(t),
            V::Arr(a) => {
                let mut v: Vec<S> = a.iter().enumerate().map(|(i, v)| json!([format!("[{i}]"), symbol_kind(v), value(v)])).collect();
                v.sort_by_key(|s| s.to_string());
                S::Array(v)
            }
            _ => json!([]),
        }
    }
    let mut v: Vec<S> = t.iter().map(|(k, v)| json!([k, symbol_kind(v), value(v)])).collect();
    v.sort_by_key(|s| s.to_string());
    S::Array(v)
}
fn nested(a: &S, outer: Option<&S>) -> Result<(), String> {
    let p = |s: &S, e: &str| (s["range"][e]["line"].as_u64().unwrap(), s["range"][e]["character"].as_u64().unwrap());
    for s in a.as_array().map_or(&[][..], |v| v) {
        let sel = &s["selectionRange"];
        let q = |e: &str| (sel[e]["line"].as_u64().unwrap(), sel[e]["character"].as_u64().unwrap());
        if q("start") < p(s, "start") || q("end") > p(s, "end") {
            return Err(format!("the selection range of {} is not within its range", s["name"]));
        }
        if let Some(o) = outer
            && (p(s, "start") < p(o, "start") || p(s, "end") > p(o, "end"))
        {
            return Err(format!("{} is not within {}", s["name"], o["name"]));
        }
        nested(&s["children"], Some(s))?;
    }
    Ok(())
}
pub fn structure(ctx: &mut Ctx, s: &Srv, uri: &l::Url, text: &str, ver: Ver) -> CaseResult {
    let ask = |m: &str| s.request(ctx, m, uri, 0, 0).or_else(|e| fail(format!("error:{m}"), e));
    let ls = lines(text);
    // tokens
    let toks = tokens(&ask("semanticTokens")?);
    let mut end = (0, 0);
    for t in &toks {
        let width = ls.get(t.0 as usize).map(|l| s.enc.len(l) as u64);
        ensure!(width.is_some_and(|w| t.1 + t.2 <= w), "token-outside", "the token at {}:{} of length {} is not within its line", t.0, t.1, t.2);
        ensure!((t.0, t.1) >= end, "token-overlap", "the token at {}:{} overlaps the one before, which ends at {end:?}", t.0, t.1);
        end = (t.0, t.1 + t.2);
    }
    // folding
    let folds = ask("foldingRange")?;
    let mut regions = vec![];
    let mut comments = vec![];
    for f in folds.as_array().map_or(&[][..], |v| v) {
        let (a, b) = (f["startLine"].as_u64().unwrap(), f["endLine"].as_u64().unwrap());
        ensure!(a <= b, "folding", "a folding range ends before it starts: {f}");
        ensure!((b as usize) < ls.len(), "folding", "a folding range is not in the document: {f}");
        let at = |line: u64, c: &S, other: u32| offset(text, line as u32, c.as_u64().map_or(other, |c| c as u32), s.enc);
        let (Some(a), Some(b)) = (at(a, &f["startCharacter"], s.enc.len(ls[a as usize])), at(b, &f["endCharacter"], s.enc.len(ls[b as usize]))) else {
            return fail("folding", format!("a folding range is not in the document: {f}"));
        };
        ensure!(a <= b, "folding", "a folding range ends before it starts: {f}");
        match f["kind"].as_str() {
            Some("region") => regions.push((a, b)),
            Some("comment") => comments.push((a, b)),
            _ => {}
        }
    }
    // symbols
    let sym = ask("documentSymbol")?;
    if let Err(e) = check_ranges(&sym, uri.as_str(), text, s.enc) {
        return fail("symbol-range", e);
    }
    let Ok(doc) = reftoml::parse(text, ver) else { return Ok(()) };
    folded(text, &doc, &regions, &comments)?;
    classified(s, text, &doc.toks, &toks)?;
    let data = doc.root;
    // every key and every string, number and comment has a token
    fn rename(t: &Tbl) -> Tbl {
        fn v(x: &V) -> V {
            match x {
                V::Tbl(t) => V::Tbl(rename(t)),
                V::Arr(a) => V::Arr(a.iter().map(v).collect()),
                x => x.clone(),
            }
        }
        t.iter().map(|(k, x)| (if k.is_empty() { "\"\"".into() } else { k.clone() }, v(x))).collect()
    }
    let (got, want) = (symbol_tree(&sym), want_tree(&rename(&data)));
    ensure!(got == want, "symbols", "the symbols are\n{got}\nthe keys are\n{want}");
    if let Err(e) = nested(&sym, None) {
        return fail("symbol-nesting", e);
    }
    // what the tokens of a valid document cover: all but whitespace and punctuation
    let mut covered: Vec<Vec<bool>> = ls.iter().map(|l| vec![false; s.enc.len(l) as usize]).collect();
    for t in &toks {
        for c in t.1..t.1 + t.2 {
            covered[t.0 as usize][c as usize] = true;
        }
    }
    for (i, l) in ls.iter().enumerate() {
        let mut at = 0;
        for c in l.chars() {
            let w = s.enc.len(c.encode_utf8(&mut [0; 4])) as usize;
            if c.is_ascii_alphanumeric() || c == '#' || c == '"' || c == '\'' || !c.is_ascii() {
                ensure!(covered[i][at..at + w].iter().all(|x| *x), "token-missing", "nothing covers {c:?} at {i}:{at}");
            }
            at += w;
        }
    }
    Ok(())
}
fn c26_structure(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let d = match src.weighted(&[4, 2, 2]) {
        0 => gn::plain(src),
        1 => gn::schema_doc(src),
        _ => gn::any(src),
    };
    d.attach(ctx);
    ctx.sample(&d.text);
    let dir = d.workspace(ctx);
    let uri = url(&dir.join(&d.file));
    let s = Srv::new(ctx, enc(src), true);
    s.open(ctx, &uri, 1, &d.text);
    let v = s.request(ctx, "tomlVersion", &uri, 0, 0).or_else(|e| fail("error", e))?;
    let ver = if v["tomlVersion"] == "v1.1.0" { Ver::V11 } else { Ver::V10 };
    if reftoml::parse_tbl(&d.text, ver).is_ok_and(|t| !t.is_empty()) {
        ctx.label("valid");
        ctx.nontrivial(&d.text);
    }
    structure(ctx, &s, &uri, &d.text, ver)
}
/// {text}
fn c26_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let text = j["text"].as_str().unwrap();
    let dir = workspace(ctx, Some("schema.catalog = { paths = [] }\n"), &[]);
    let uri = url(&dir.join("a.toml"));
    let s = Srv::new(ctx, Enc::U16, true);
    s.open(ctx, &uri, 1, text);
    structure(ctx, &s, &uri, text, Ver::V10)
}

// ---------------------------------------------------------------- C24
/// Valid documents of dotted keys, headers and inline tables that meet
fn dotted_doc(src: &mut Src, ver: Ver) -> String {
    const KEYS: [&str; 9] = ["a", "b", "c", "a-1", "\"x y\"", "''", "\"é\"", "\"a.b\"", "1"];
    fn key(src: &mut Src) -> String {
        KEYS[if src.chance(3, 4) { src.usize(0, 2) } else { src.usize(3, 8) }].into()
    }
    fn path(src: &mut Src, most: usize) -> String {
        let dot = if src.chance(1, 8) { " . " } else { "." };
        (0..src.usize(1, most)).map(|_| key(src)).collect::<Vec<_>>().join(dot)
    }
    fn value(src: &mut Src, depth: u32, ver: Ver) -> String {
        match src.weighted(&[4, 1, 1, 2, 1, if depth > 0 { 6 } else { 0 }]) {
            0 => "1".into(),
            1 => "\"é # }\"".into(),
            2 => "\"\"\"\nx\n\"\"\"".into(),
            3 => "[1, [2]]".into(),
            4 => format!("[ # c\n  {},\n]", if depth > 0 { value(src, depth - 1, ver) } else { "true".into() }),
            _ => {
                let n = [1, 1, 1, 0, 2, 3][src.usize(0, 5)];
                let multi = ver == Ver::V11 && src.chance(1, 4);
                let kvs: Vec<String> = (0..n)
                    .map(|_| {
                        let v = value(src, depth - 1, ver);
                        let k = path(src, 3);
                        if multi { format!("\n{k} = {v}{}", if src.chance(1, 4) { " # t\n" } else { "" }) } else { format!("{k}{}{v}", src.pick(&[" = ", "="])) }
                    })
                    .collect();
                let pad = *src.pick(&[" ", "", "  "]);
                format!("{{{pad}{}{pad}{}}}", kvs.join(","), if multi { ["", ",", "\n", ", # c\n"][src.usize(0, 3)] } else { "" })
            }
        }
    }
    let mut text = String::new();
    let end = if src.chance(1, 8) { "\r\n" } else { "\n" };
    for _ in 0..src.usize(1, 7) {
        let line = match src.weighted(&[8, 2, 1, 1]) {
            0 => format!("{}{} = {}{}", src.pick(&["", "  "]), path(src, 4), value(src, 2, ver), src.pick(&["", "", " # trailing"])),
            1 => format!("[{}]", path(src, 3)),
            2 => format!("[[{}]]", path(src, 2)),
            _ => "# comment".into(),
        };
        let next = format!("{text}{}{end}", line.replace('\n', end));
        if reftoml::parse_tbl(&next, ver).is_ok() {
            text = next;
        }
    }
    text
}
fn conversions(ctx: &mut Ctx, s: &Srv, uri: &l::Url, text: &str, ver: Ver, at: (u32, u32)) -> Result<u32, Fail> {
    let data = reftoml::parse_tbl(text, ver).expect("valid");
    let a = s.request(ctx, "codeAction", uri, at.0, at.1).or_else(|e| fail("error", e))?;
    let mut n = 0;
    for a in a.as_array().map_or(&[][..], |v| v) {
        let title = a["title"].as_str().unwrap_or_default();
        if !title.starts_with("Convert ") {
            continue;
        }
        n += 1;
        ctx.label(title);
        let edits: Vec<l::TextEdit> = serde_json::from_value(a["edit"]["documentChanges"][0]["edits"].clone()).unwrap();
        let got = match apply(text, &edits, s.enc) {
            Ok(t) => t,
            Err(e) => return fail("bad-edits", format!("{title} at {}:{}: {e}", at.0, at.1)),
        };
        match reftoml::parse_tbl(&got, ver) {
            Err(e) => return fail(format!("invalid:{title}"), format!("after {title} at {}:{} the document is invalid ({e:?}):\n{got}", at.0, at.1)),
            Ok(t) => {
                ensure!(reftoml::diff_tbl(&t, &data, false, "").is_none(), format!("data:{title}"), "after {title} at {}:{} the document has other data:\n{got}", at.0, at.1);
                ensure!(got != text, format!("nothing:{title}"), "{title} at {}:{} changes nothing", at.0, at.1);
            }
        }
    }
    Ok(n)
}
fn c24_convert(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ver = if src.bool() { Ver::V11 } else { Ver::V10 };
    let text = dotted_doc(src, ver);
    ctx.attach("a.toml", &text);
    ctx.attach("version", if ver == Ver::V11 { "v1.1.0" } else { "v1.0.0" });
    ctx.sample(&text);
    let config = format!("toml-version = \"{}\"\nschema.catalog = {{ paths = [] }}\n", if ver == Ver::V11 { "v1.1.0" } else { "v1.0.0" });
    let dir = workspace(ctx, Some(&config), &[]);
    let uri = url(&dir.join("a.toml"));
    let s = Srv::new(ctx, enc(src), true);
    s.open(ctx, &uri, 1, &text);
    let mut n = 0;
    for at in 0..=text.len() {
        if text.is_char_boundary(at) {
            n += conversions(ctx, &s, &uri, &text, ver, position(&text, at, s.enc))?;
        }
    }
    if n > 0 {
        ctx.nontrivial(&(&text, ver == Ver::V11));
    }
    Ok(())
}
/// {text, version}
fn c24_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let text = j["text"].as_str().unwrap();
    let v = j["version"].as_str().unwrap_or("v1.0.0");
    let dir = workspace(ctx, Some(&format!("toml-version = \"{v}\"\nschema.catalog = {{ paths = [] }}\n")), &[]);
    let uri = url(&dir.join("a.toml"));
    let s = Srv::new(ctx, Enc::U16, true);
    s.open(ctx, &uri, 1, text);
    for at in 0..=text.len() {
        if text.is_char_boundary(at) {
            conversions(ctx, &s, &uri, text, if v == "v1.1.0" { Ver::V11 } else { Ver::V10 }, position(text, at, s.enc))?;
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C24",
            rule: "a valid document with at least one conversion offered; distinct by text and version",
            assumptions: &["conversions are asked for at every position of the document; the actions of the Cargo and pyproject extensions change data on purpose and are not in this"],
            streams: vec![Stream { name: "convert", quick: 3_000, thorough: 400_000, case: c24_convert }],
            probe: Some(c24_probe),
            min_nontrivial: 300,
        },
        Prop {
            id: "C21",
            rule: "a history with at least one change of the text; distinct by configuration and history",
            assumptions: &["clients send whole texts, as the server announces, one notification after the other"],
            streams: vec![Stream { name: "histories", quick: 3_000, thorough: 200_000, case: c21_histories }],
            probe: Some(c21_probe),
            min_nontrivial: 300,
        },
        Prop {
            id: "C22",
            rule: "a document for which more than five requests had an answer; distinct by text",
            assumptions: &[],
            streams: vec![Stream { name: "requests", quick: 5_000, thorough: 300_000, case: c22_requests }],
            probe: Some(c22_probe),
            min_nontrivial: 300,
        },
        Prop {
            id: "C25",
            rule: "a document that formatting changes; distinct by configuration and text",
            assumptions: &[],
            streams: vec![Stream { name: "edits", quick: 4_000, thorough: 500_000, case: c25_edits }],
            probe: Some(c25_probe),
            min_nontrivial: 300,
        },
        Prop {
            id: "C26",
            rule: "a valid document with at least one key; distinct by text",
            assumptions: &[],
            streams: vec![Stream { name: "structure", quick: 4_000, thorough: 500_000, case: c26_structure }],
            probe: Some(c26_probe),
            min_nontrivial: 300,
        },
    ]
}
