//! C11: validation against JSON Schema, compared with an independent evaluator.
use crate::engine::*;
use crate::ensure;
use crate::genschema::{self as gs, Cfg};
use crate::refschema::{Dialect, Ref};
use crate::reftoml::{self, Tbl, V, Ver};
use crate::tom;
use serde_json::{Value as S, json};
use std::path::Path;

pub const URI: &str = "https://x.test/schema.json";

pub fn lint_schema(ctx: &Ctx, doc: &str, ver: Ver, files: &[(&str, &str)], strict: bool) -> Vec<tombi_diagnostic::Diagnostic> {
    let store = tom::mem_store(files, tombi_schema_store::Options { strict: Some(strict.into()), ..Default::default() });
    let uri: tombi_uri::SchemaUri = files[0].0.parse().unwrap();
    ctx.block_on(store.associate_schema(uri, vec!["*.toml".into()], &Default::default()));
    tom::lint_with(ctx, doc, ver, &Default::default(), Some(Path::new("/vt/doc.toml")), &store)
}
pub fn errors(d: &[tombi_diagnostic::Diagnostic]) -> Vec<&tombi_diagnostic::Diagnostic> {
    d.iter().filter(|d| d.level() == tombi_diagnostic::Level::ERROR).collect()
}
fn judge(ctx: &mut Ctx, schema: &S, dialect: Dialect, doc: &str, data: &Tbl) -> CaseResult {
    judge_files(ctx, &[(URI, schema)], URI, dialect, doc, data)
}
fn judge_files(ctx: &mut Ctx, files: &[(&str, &S)], at: &str, dialect: Dialect, doc: &str, data: &Tbl) -> CaseResult {
    let texts: Vec<(&str, String)> = files.iter().map(|(u, s)| (*u, serde_json::to_string_pretty(s).unwrap())).collect();
    for (u, t) in &texts {
        ctx.attach(u.rsplit('/').next().unwrap(), t);
    }
    ctx.attach("doc.toml", doc);
    let tree = V::Tbl(data.clone());
    let r = Ref::new(files, dialect);
    let want = r.eval(files[0].0, files[0].1, &tree, "");
    let mut texts: Vec<(&str, &str)> = texts.iter().map(|(u, t)| (*u, t.as_str())).collect();
    texts[0].0 = at;
    let got = lint_schema(ctx, doc, Ver::V10, &texts, false);
    let errs = errors(&got);
    ctx.label(if want.is_ok() { "satisfies" } else { "violates" });
    match want {
        Ok(_) => ensure!(errs.is_empty(), format!("false-alarm:{}", errs[0].code()), "the document satisfies the schema, but linting reports\n{}", tom::show_diags(&got)),
        Err(e) => ensure!(!errs.is_empty(), format!("missed:{}", e.rsplit(": ").next().unwrap_or("").split(' ').next().unwrap_or("")), "the document violates the schema ({e}), but linting reports no error:\n{}", tom::show_diags(&got)),
    }
    Ok(())
}
fn c11_random(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::random(src);
    if c.dates {
        c.rec = 0; // open findings
    }
    if let Ok(t) = std::env::var("VT_CFG") {
        for k in t.split(',') {
            match k {
                "typed" => c.typed = true,
                "nocomb" => c.combinators = false,
                "noref" => c.refs = 0,
                "nouneval" => c.unevaluated = false,
                "nocond" => c.cond = false,
                "nobool" => c.bools = false,
                "nodate" => c.dates = false,
                "nomulti" => c.multi = false,
                _ => {}
            }
        }
    }
    let schema = gs::root(src, &c);
    let inst = gs::Inst { root: &schema, dates: c.dates };
    // nested applicators of recursive schemas take exponential time: an open finding of C04
    let depth = if c.rec > 0 { 2 } else { 4 };
    let t = match inst.value(src, &schema, depth) {
        V::Tbl(t) => t,
        _ => inst.table(src, schema.as_object().unwrap(), depth),
    };
    let doc = gs::document(src, &t);
    let data = match reftoml::parse_tbl(&doc, Ver::V10) {
        Ok(d) => d,
        Err(e) => return fail("generator", format!("{e:?}: {doc}")),
    };
    if !t.is_empty() {
        ctx.nontrivial(&(schema.to_string(), &doc));
    }
    ctx.sample(format!("{schema}\n{doc}"));
    judge(ctx, &schema, c.dialect, &doc, &data)
}
/// Many keywords that decide about the same items or keys.
fn dense(src: &mut Src, ctx: &mut Ctx, arrays: bool) -> CaseResult {
    let dialect = *src.pick(&[Dialect::D2020, Dialect::D2020, Dialect::D7, Dialect::D2019]);
    let depth = src.below(3);
    let via_ref = src.chance(1, 4);
    let mut s = if arrays { gs::dense_array(src, dialect, depth) } else { gs::dense_object(src, dialect, depth) };
    let defs = if dialect == Dialect::D7 { "definitions" } else { "$defs" };
    let nested = arrays || src.chance(1, 3);
    let mut schema = if !nested {
        s
    } else if via_ref {
        json!({"type": "object", "properties": {"k": {"$ref": format!("#/{defs}/d")}}, defs: {"d": s.take()}})
    } else {
        json!({"type": "object", "properties": {"k": s.take()}})
    };
    schema["$schema"] = dialect.uri().into();
    let v = if arrays { V::Arr(gs::dense_items(src)) } else { V::Tbl(gs::dense_keys(src)) };
    let t: Tbl = match v {
        V::Tbl(t) if !nested => t,
        v => vec![("k".into(), v)],
    };
    let doc = gs::document(src, &t);
    let Ok(data) = reftoml::parse_tbl(&doc, Ver::V10) else { return fail("generator", doc) };
    if !t.is_empty() {
        ctx.nontrivial(&(schema.to_string(), &doc));
    }
    ctx.sample(format!("{schema}\n{doc}"));
    judge(ctx, &schema, dialect, &doc, &data)
}
fn c11_items(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    dense(src, ctx, true)
}
fn c11_keys(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    dense(src, ctx, false)
}
/// References by anchor and into another document.
fn c11_refs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut c = Cfg::random(src);
    c.refs = src.usize(1, 3) as u32;
    c.rec = if src.bool() && !c.dates { c.refs } else { 0 };
    let mut schema = gs::root(src, &c);
    let depth = if c.rec > 0 { 2 } else { 4 };
    let inst = gs::Inst { root: &schema, dates: c.dates };
    let t = match inst.value(src, &schema, depth) {
        V::Tbl(t) => t,
        _ => inst.table(src, schema.as_object().unwrap(), depth),
    };
    let doc = gs::document(src, &t);
    let Ok(data) = reftoml::parse_tbl(&doc, Ver::V10) else { return fail("generator", doc) };
    let defs = if c.dialect == Dialect::D7 { "definitions" } else { "$defs" };
    let anchors = src.bool() && c.dialect != Dialect::D7;
    // references within the target of a root reference into another document: an open finding
    let external = src.bool() && schema.get("$ref").is_none();
    let relative = src.bool();
    const OTHER: &str = "https://x.test/defs/other.json";
    if anchors {
        let d = schema[defs].as_object_mut().unwrap();
        for (k, s) in d.iter_mut() {
            if let S::Object(o) = s
                && !o.contains_key("$ref")
            {
                o.insert("$anchor".into(), format!("n-{k}").into());
            }
        }
    }
    let named: Vec<String> = schema[defs].as_object().unwrap().iter().filter(|(_, s)| s.get("$anchor").is_some()).map(|(k, _)| k.clone()).collect();
    let prefix = if !external {
        ""
    } else if relative {
        "defs/other.json"
    } else {
        OTHER
    };
    let mut other = json!({"$schema": c.dialect.uri(), defs: schema[defs].clone()});
    let rename = |r: &str, at: &str| -> Option<String> {
        let k = r.strip_prefix(&format!("#/{defs}/"))?;
        Some(if named.iter().any(|n| n == k) { format!("{at}#n-{k}") } else { format!("{at}{r}") })
    };
    rewrite(&mut schema, &|r| rename(r, prefix));
    rewrite(&mut other, &|r| if r == "#" { Some(if relative { "../schema.json".into() } else { URI.into() }) } else { rename(r, "") });
    if external {
        schema.as_object_mut().unwrap().remove(defs);
    }
    ctx.label(if external { "external" } else { "local" });
    if !named.is_empty() {
        ctx.label("anchor");
    }
    if !t.is_empty() {
        ctx.nontrivial(&(schema.to_string(), &doc));
    }
    ctx.sample(format!("{schema}\n{other}\n{doc}"));
    let both = [(URI, &schema), (OTHER, &other)];
    judge_files(ctx, if external { &both } else { &both[..1] }, URI, c.dialect, &doc, &data)
}
fn rewrite(s: &mut S, f: &dyn Fn(&str) -> Option<String>) {
    match s {
        S::Object(o) => {
            for (k, v) in o.iter_mut() {
                match (k.as_str(), &*v) {
                    ("$ref", S::String(r)) => {
                        if let Some(n) = f(r) {
                            *v = n.into();
                        }
                    }
                    ("enum" | "const", _) => {}
                    _ => rewrite(v, f),
                }
            }
        }
        S::Array(l) => l.iter_mut().for_each(|v| rewrite(v, f)),
        _ => {}
    }
}
fn c11_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let schema = j["schema"].clone();
    let dialect = [Dialect::D7, Dialect::D2019].into_iter().find(|d| schema["$schema"] == d.uri()).unwrap_or(Dialect::D2020);
    let doc = j["doc"].as_str().unwrap();
    let data = reftoml::parse_tbl(doc, Ver::V10).unwrap_or_default();
    let _ = json!(null);
    judge(ctx, &schema, dialect, doc, &data)
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        rule: "a document with at least one key, against a schema; distinct by both",
        assumptions: &["TOML integers are the only integers of a schema, and date-times are strings of their own format"],
        streams: vec![
            Stream { name: "random", quick: 50_000, thorough: 3_000_000, case: c11_random },
            Stream { name: "items", quick: 30_000, thorough: 2_000_000, case: c11_items },
            Stream { name: "keys", quick: 30_000, thorough: 2_000_000, case: c11_keys },
            Stream { name: "refs", quick: 20_000, thorough: 1_000_000, case: c11_refs },
        ],
        probe: Some(c11_probe),
        min_nontrivial: 500,
    }]
}
