//! C38: results do not depend on what the schema store did before, or does at the same time.
use crate::engine::*;
use crate::ensure;
use crate::genschema::{self as gs, Cfg};
use crate::refschema::Dialect;
use crate::reftoml::V;
use crate::tom;
use serde_json::{Value as S, json};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tombi_schema_store::SchemaStore;

/// Tokens and rules whose results depend on the schema
pub fn decorate(src: &mut Src, s: &mut S, order: bool) {
    let S::Object(o) = s else { return };
    if o.contains_key("$ref") && o.len() == 1 {
        return;
    }
    let object = o.contains_key("properties") || o.get("type").is_some_and(|t| t == "object");
    if object && order && src.bool() {
        o.insert("x-tombi-table-keys-order".into(), (*src.pick(&["ascending", "descending", "schema", "version-sort"])).into());
    }
    if o.get("type").is_some_and(|t| t == "array") && order && src.bool() {
        o.insert("x-tombi-array-values-order".into(), (*src.pick(&["ascending", "descending", "version-sort"])).into());
    }
    if src.chance(1, 8) {
        o.insert("title".into(), "t".into());
    }
    if src.chance(1, 8) {
        o.insert("deprecated".into(), true.into());
    }
    for (k, v) in o.iter_mut() {
        match k.as_str() {
            "properties" | "patternProperties" | "$defs" | "definitions" | "dependentSchemas" => {
                if let S::Object(m) = v {
                    m.values_mut().for_each(|v| decorate(src, v, order))
                }
            }
            "allOf" | "anyOf" | "oneOf" | "prefixItems" => {
                if let S::Array(l) = v {
                    l.iter_mut().for_each(|v| decorate(src, v, order))
                }
            }
            "items" => match v {
                S::Array(l) => l.iter_mut().for_each(|v| decorate(src, v, order)),
                v => decorate(src, v, order),
            },
            "additionalProperties" | "additionalItems" | "contains" | "if" | "then" | "else" | "not" | "propertyNames" | "unevaluatedProperties" | "unevaluatedItems" => decorate(src, v, order),
            _ => {}
        }
    }
}
fn rewrite(s: &mut S, f: &dyn Fn(&str) -> Option<String>) {
    match s {
        S::Object(o) => {
            for (k, v) in o.iter_mut() {
                match (k.as_str(), &*v) {
                    ("$ref", S::String(r)) => {
                        if let Some(n) = f(r) {
                            *v = n.into();
                        }
                    }
                    ("enum" | "const", _) => {}
                    _ => rewrite(v, f),
                }
            }
        }
        S::Array(l) => l.iter_mut().for_each(|v| rewrite(v, f)),
        _ => {}
    }
}
const N: usize = 3;
/// One generation of the schema files, and documents for them
struct Set {
    files: Vec<(String, S)>,
    docs: Vec<String>,
}
fn set(src: &mut Src, shared: bool, rec: bool) -> Set {
    let mut c = Cfg::random(src);
    c.refs = src.usize(1, 3) as u32;
    // documents of another set nest deeper, and recursive schemas take exponential time (an open finding of C11)
    c.rec = if rec && src.bool() && !c.dates { c.refs } else { 0 };
    let defs = if c.dialect == Dialect::D7 { "definitions" } else { "$defs" };
    let mut files: Vec<(String, S)> = vec![];
    let mut docs = vec![];
    let order = src.bool();
    for i in 0..N {
        let mut schema = gs::root(src, &c);
        let depth = if c.rec > 0 { 2 } else { 3 };
        let inst = gs::Inst { root: &schema, dates: c.dates };
        let t = match inst.value(src, &schema, depth) {
            V::Tbl(t) => t,
            _ => inst.table(src, schema.as_object().unwrap(), depth),
        };
        docs.push(gs::document(src, &t));
        decorate(src, &mut schema, order);
        if src.chance(1, 6) {
            schema["x-tombi-toml-version"] = (*src.pick(&["v1.0.0", "v1.1.0"])).into();
        }
        let prefix = format!("#/{defs}/");
        if shared && (i == 0 || files.iter().any(|f| f.0 == "other.json")) && schema.get("$ref").is_none() {
            // the definitions of the first schema serve all of them
            if i == 0 {
                let mut other = json!({"$schema": c.dialect.uri(), defs: schema[defs].clone()});
                rewrite(&mut other, &|r| if r == "#" { Some("s0.json".into()) } else { None });
                files.push(("other.json".into(), other));
            }
            let inside = src.bool();
            rewrite(&mut schema, &|r| r.strip_prefix(&prefix).map(|_| format!("other.json{r}")));
            // a reference from one root into another one
            if inside && i > 0 {
                schema["properties"]["other"] = json!({"$ref": "s0.json"});
                docs[i] = format!("other = {{ a = 1, b = \"x\" }}\n{}", docs[i]);
            }
            schema.as_object_mut().unwrap().remove(defs);
        }
        files.push((format!("s{i}.json"), schema));
    }
    Set { files, docs }
}
impl Set {
    fn write(&self, dir: &Path, clock: &mut u64) {
        for (name, s) in &self.files {
            write(&dir.join(name), &serde_json::to_string_pretty(s).unwrap(), clock);
        }
    }
}
/// Each written file gets a time of its own, as if the writes were a second apart
fn write(at: &Path, text: &str, clock: &mut u64) {
    std::fs::write(at, text).unwrap();
    *clock += 1;
    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000 + *clock);
    std::fs::File::options().write(true).open(at).unwrap().set_modified(t).unwrap();
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Lint(usize),
    Format(usize),
}
#[derive(Clone, Debug, PartialEq)]
struct Run {
    config: Arc<tombi_config::Config>,
    dir: PathBuf,
    docs: Vec<String>,
}
impl Run {
    async fn store(&self) -> Result<SchemaStore, String> {
        let store = SchemaStore::new_with_options_and_http_client(tombi_schema_store::Options { strict: self.config.schema.as_ref().and_then(|s| s.strict()), ..Default::default() }, Arc::new(tom::NoHttp));
        store.load_config(&self.config, Some(&self.dir.join("tombi.toml"))).await.map_err(|e| format!("{e:?}"))?;
        Ok(store)
    }
    async fn op(&self, op: Op, store: &SchemaStore) -> String {
        let version = self.config.toml_version.unwrap_or_default();
        match op {
            Op::Lint(i) => {
                let options = Default::default();
                let at = self.dir.join(format!("d{}.toml", i % N));
                let l = tombi_linter::Linter::new(version, &options, Some(itertools::Either::Right(&at)), store);
                tom::show_diags(&l.lint(&self.docs[i]).await.err().unwrap_or_default())
            }
            Op::Format(i) => {
                let options = Default::default();
                let at = self.dir.join(format!("d{}.toml", i % N));
                let f = tombi_formatter::Formatter::new(version, &options, Some(itertools::Either::Right(&at)), store);
                match f.format(&self.docs[i]).await {
                    Ok(t) => t,
                    Err(d) => format!("errors\n{}", tom::show_diags(&d)),
                }
            }
        }
    }
    async fn alone(&self, op: Op) -> Result<String, String> {
        Ok(self.op(op, &self.store().await?).await)
    }
}
fn threads() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(8).thread_stack_size(64 << 20).enable_all().build().unwrap())
}
/// Files that differ from each other, over one directory; the documents of all of them
fn history(src: &mut Src, ctx: &mut Ctx, changes: bool, cold: bool) -> CaseResult {
    let dir = ctx.scratch.join("determ");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut clock = 0;
    let shared = src.chance(2, 3);
    let first = set(src, shared, !changes);
    first.write(&dir, &mut clock);
    let mut config = String::from("[schema]\ncatalog = { paths = [] }\n");
    if src.chance(1, 4) {
        config += "strict = false\n";
    }
    for i in 0..N {
        config += &format!("[[schemas]]\npath = \"s{i}.json\"\ninclude = [\"d{i}.toml\"]\n");
    }
    ctx.attach("tombi.toml", &config);
    let config = Arc::new(match serde_tombi::config::from_str(&config, &dir.join("tombi.toml")) {
        Ok(c) => c,
        Err(e) => return fail("config", format!("{e:?}")),
    });
    let mut docs = first.docs.clone();
    let second = set(src, shared, !changes);
    if changes {
        docs.extend(second.docs.clone());
    }
    for (name, s) in &first.files {
        ctx.attach(name, &serde_json::to_string_pretty(s).unwrap());
    }
    for (i, d) in docs.iter().enumerate() {
        ctx.attach(&format!("doc {i}"), d);
    }
    let run = Run { config, dir: dir.clone(), docs };
    let m = run.docs.len();
    let op = |src: &mut Src| {
        let i = src.usize(0, m - 1);
        if src.chance(2, 3) { Op::Lint(i) } else { Op::Format(i) }
    };
    let mut store = match ctx.block_on(run.store()) {
        Ok(s) => s,
        Err(e) => return fail("config", e),
    };
    let mut current = first.files.clone();
    let mut log: Vec<String> = vec![];
    let mut interesting = false;
    let rounds = if changes { src.usize(2, 4) } else if cold { 4 } else { 1 };
    for round in 0..rounds {
        if round > 0 && cold {
            store = ctx.block_on(run.store()).unwrap();
        } else if round > 0 {
            // some of the files get new content, or go back to the old one
            let mut n = 0;
            for (i, (name, _)) in first.files.iter().enumerate() {
                if !src.bool() {
                    continue;
                }
                if src.chance(1, 8) {
                    let _ = std::fs::remove_file(dir.join(name));
                    log.push(format!("remove {name}"));
                    ctx.label("removed");
                    current[i].1 = S::Null;
                    continue;
                }
                let of = if src.chance(2, 3) { &second } else { &first };
                let Some((_, s)) = of.files.iter().find(|f| f.0 == *name) else { continue };
                // other.json must have what the others ask for
                if name == "other.json" || current[i].1 != *s {
                    n += 1;
                }
                current[i].1 = s.clone();
                write(&dir.join(name), &serde_json::to_string_pretty(s).unwrap(), &mut clock);
                log.push(format!("write {name}"));
                ctx.attach(&format!("{name} after {} steps", log.len()), &serde_json::to_string_pretty(s).unwrap());
            }
            ctx.label_if(n > 0, "changed");
        }
        let mut ops: Vec<Op> = (0..src.usize(2, 6)).map(|_| op(src)).collect();
        if cold {
            // the same work at the same time, with nothing resolved yet
            let first = ops[0];
            ops.resize(16, first);
            ops.reverse();
        }
        let together = cold || src.chance(1, 3);
        log.push(format!("{}{ops:?}", if together { "at the same time " } else { "" }));
        ctx.attach("history", &log.join("\n"));
        let mut want = vec![];
        for o in &ops {
            match ctx.block_on(run.alone(*o)) {
                Ok(w) => want.push(w),
                Err(e) => return fail("config", e),
            }
        }
        let again = ctx.block_on(run.alone(ops[0])).unwrap_or_default();
        ensure!(again == want[0], "repeat", "{:?} twice, each with a fresh store:\n{}\n-- and\n{again}", ops[0], want[0]);
        let got: Vec<String> = if together {
            ctx.label("concurrent");
            let tasks: Vec<_> = ops
                .iter()
                .map(|o| {
                    let (run, store, o) = (run.clone(), store.clone(), *o);
                    threads().spawn(async move { run.op(o, &store).await })
                })
                .collect();
            let mut out = vec![];
            for t in tasks {
                match ctx.block_on(t) {
                    Ok(s) => out.push(s),
                    Err(e) => return fail("panic", format!("{e}")),
                }
            }
            out
        } else {
            ops.iter().map(|o| ctx.block_on(run.op(*o, &store))).collect()
        };
        for (i, o) in ops.iter().enumerate() {
            interesting |= !want[i].is_empty() && matches!(o, Op::Lint(_));
            let kind = match o {
                Op::Lint(_) => "lint",
                Op::Format(_) => "format",
            };
            let when = if round > 0 && !cold { "changed" } else if together { "concurrent" } else { "shared" };
            ensure!(got[i] == want[i], format!("{when}:{kind}"), "operation {i} of the last step, {o:?}, alone:\n{}\n-- with the shared store:\n{}", want[i], got[i]);
        }
    }
    if interesting {
        ctx.nontrivial(&(format!("{:?}", run.docs), format!("{log:?}")));
    }
    ctx.sample(format!("{}\n{}", log.join("\n"), run.docs.join("----\n")));
    Ok(())
}
fn c38_shared(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    history(src, ctx, false, false)
}
fn c38_changes(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    history(src, ctx, true, false)
}
fn c38_cold(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    history(src, ctx, false, true)
}
/// One document and its schema, many times; or before and after files change
fn c38_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let doc = j["doc"].as_str().unwrap();
    ctx.attach("doc.toml", doc);
    let Some(files) = j["files"].as_object() else {
        let schema = j["schema"].to_string();
        let mut first = None;
        for _ in 0..40 {
            let d = crate::props::schema::lint_schema(ctx, doc, crate::reftoml::Ver::V10, &[(crate::props::schema::URI, &schema)], true);
            let d = tom::show_diags(&d);
            let f = first.get_or_insert_with(|| d.clone());
            ensure!(*f == d, "repeat", "linted twice:\n{f}\n-- and\n{d}");
        }
        return Ok(());
    };
    let dir = ctx.scratch.join("determ");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut clock = 0;
    for (n, s) in files {
        write(&dir.join(n), &s.to_string(), &mut clock);
    }
    let config = "[schema]\ncatalog = { paths = [] }\n[[schemas]]\npath = \"s0.json\"\ninclude = [\"d0.toml\"]\n";
    let config = Arc::new(serde_tombi::config::from_str(config, &dir.join("tombi.toml")).unwrap());
    let run = Run { config, dir: dir.clone(), docs: vec![doc.into()] };
    let store = ctx.block_on(run.store()).unwrap();
    ctx.block_on(run.op(Op::Lint(0), &store));
    for (n, s) in j["then"].as_object().unwrap() {
        write(&dir.join(n), &s.to_string(), &mut clock);
    }
    let (want, got) = (ctx.block_on(run.alone(Op::Lint(0))).unwrap(), ctx.block_on(run.op(Op::Lint(0), &store)));
    ensure!(got == want, "changed:lint", "alone:\n{want}\n-- with the shared store:\n{got}");
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C38",
        rule: "a history in which some lint operation reports something; distinct by documents and history",
        assumptions: &["a schema file that changes gets another modification time"],
        streams: vec![
            Stream { name: "shared", quick: 1_500, thorough: 200_000, case: c38_shared },
            Stream { name: "cold", quick: 1_000, thorough: 200_000, case: c38_cold },
            Stream { name: "changes", quick: 1_500, thorough: 200_000, case: c38_changes },
        ],
        probe: Some(c38_probe),
        min_nontrivial: 400,
    }]
}
