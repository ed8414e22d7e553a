//! Thin adapters onto the code under test.
use crate::engine::Ctx;
use crate::reftoml::{Dt, Tbl, V, Ver};
use tombi_ast::AstNode;
use tombi_diagnostic::Diagnostic;
use tombi_document_tree as dt;
use tombi_document_tree::IntoDocumentTreeAndErrors;
use std::sync::Arc;

/// An HTTP client that never reaches a network
#[derive(Debug)]
pub struct NoHttp;
impl tombi_schema_store::HttpClient for NoHttp {
    fn get_bytes<'a>(&'a self, _: &'a str) -> tombi_schema_store::HttpFuture<'a, Result<bytes::Bytes, tombi_schema_store::FetchError>> {
        Box::pin(async { Err(tombi_schema_store::FetchError::FetchFailed { reason: "no network".into() }) })
    }
}
pub fn store() -> tombi_schema_store::SchemaStore {
    tombi_schema_store::SchemaStore::new_with_options_and_http_client(Default::default(), Arc::new(NoHttp))
}

/// An HTTP client that serves texts from memory
#[derive(Debug, Default)]
pub struct MemHttp(pub std::collections::HashMap<String, String>);
impl tombi_schema_store::HttpClient for MemHttp {
    fn get_bytes<'a>(&'a self, url: &'a str) -> tombi_schema_store::HttpFuture<'a, Result<bytes::Bytes, tombi_schema_store::FetchError>> {
        let r = match self.0.get(url) {
            Some(t) => Ok(bytes::Bytes::from(t.clone())),
            None => Err(tombi_schema_store::FetchError::FetchFailed { reason: format!("not served: {url}") }),
        };
        Box::pin(async move { r })
    }
}
pub fn mem_store(files: &[(&str, &str)], options: tombi_schema_store::Options) -> tombi_schema_store::SchemaStore {
    let http = MemHttp(files.iter().map(|(u, t)| (u.to_string(), t.to_string())).collect());
    tombi_schema_store::SchemaStore::new_with_options_and_http_client(options, Arc::new(http))
}
/// A store in which the first schema is that of every `*.toml`
pub fn store_with_schemas(ctx: &Ctx, files: &[(&str, &str)]) -> tombi_schema_store::SchemaStore {
    let store = mem_store(files, Default::default());
    let uri: tombi_uri::SchemaUri = files[0].0.parse().unwrap();
    ctx.block_on(store.associate_schema(uri, vec!["*.toml".into()], &Default::default()));
    store
}

pub fn parse_errors(src: &str) -> Vec<String> {
    tombi_parser::parse(src).errors.iter().map(|e| e.to_string()).collect()
}
/// Document tree of a text, or the reason why there is none
pub fn tree(src: &str, ver: Ver) -> Result<Tbl, String> {
    let p = tombi_parser::parse(src);
    if !p.errors.is_empty() {
        return Err(format!("parse: {}", p.errors[0]));
    }
    let root = tombi_ast::Root::cast(p.into_syntax_node()).ok_or("no root")?;
    let (tree, errors) = root.into_document_tree_and_errors(ver.tombi()).into();
    if let Some(e) = errors.first() {
        return Err(format!("tree: {e}"));
    }
    table(&tree)
}
pub fn table(t: &dt::Table) -> Result<Tbl, String> {
    t.key_values().iter().map(|(k, v)| Ok((k.value.clone(), value(v)?))).collect()
}
pub fn value(v: &dt::Value) -> Result<V, String> {
    use dt::Value as D;
    Ok(match v {
        D::Boolean(b) => V::Bool(b.value()),
        D::Integer(i) => V::Int(i.value()),
        D::Float(f) => V::Float(f.value()),
        D::String(s) => V::Str(s.value().to_string()),
        D::OffsetDateTime(d) => {
            let d = d.value();
            V::Dt(Dt {
                date: Some((d.year(), d.month(), d.day())),
                time: Some((d.hour(), d.minute(), d.second(), d.nanosecond())),
                offset: Some(match d.offset() {
                    tombi_date_time::TimeZoneOffset::Z => 0,
                    tombi_date_time::TimeZoneOffset::Custom { minutes } => minutes,
                }),
            })
        }
        D::LocalDateTime(d) => {
            let d = d.value();
            V::Dt(Dt {
                date: Some((d.year(), d.month(), d.day())),
                time: Some((d.hour(), d.minute(), d.second(), d.nanosecond())),
                offset: None,
            })
        }
        D::LocalDate(d) => {
            let d = d.value();
            V::Dt(Dt { date: Some((d.year(), d.month(), d.day())), time: None, offset: None })
        }
        D::LocalTime(d) => {
            let d = d.value();
            V::Dt(Dt { date: None, time: Some((d.hour(), d.minute(), d.second(), d.nanosecond())), offset: None })
        }
        D::Array(a) => V::Arr(a.values().iter().map(value).collect::<Result<_, _>>()?),
        D::Table(t) => V::Tbl(table(t)?),
        D::Incomplete { .. } => return Err("incomplete value in a tree without errors".into()),
    })
}

/// All diagnostics of linting without any schema
pub fn lint(ctx: &Ctx, src: &str, ver: Ver) -> Vec<Diagnostic> {
    let store = store();
    let opts = tombi_config::LintOptions::default();
    lint_with(ctx, src, ver, &opts, None, &store)
}
pub fn lint_with(
    ctx: &Ctx,
    src: &str,
    ver: Ver,
    opts: &tombi_config::LintOptions,
    path: Option<&std::path::Path>,
    store: &tombi_schema_store::SchemaStore,
) -> Vec<Diagnostic> {
    let l = tombi_linter::Linter::new(ver.tombi(), opts, path.map(itertools::Either::Right), store);
    ctx.block_on(l.lint(src)).err().unwrap_or_default()
}
pub fn format(ctx: &Ctx, src: &str, ver: Ver, opts: &tombi_config::FormatOptions) -> Result<String, Vec<Diagnostic>> {
    let store = store();
    format_with(ctx, src, ver, opts, None, &store)
}
pub fn format_with(
    ctx: &Ctx,
    src: &str,
    ver: Ver,
    opts: &tombi_config::FormatOptions,
    path: Option<&std::path::Path>,
    store: &tombi_schema_store::SchemaStore,
) -> Result<String, Vec<Diagnostic>> {
    let f = tombi_formatter::Formatter::new(ver.tombi(), opts, path.map(itertools::Either::Right), store);
    ctx.block_on(f.format(src))
}
pub fn show_diags(d: &[Diagnostic]) -> String {
    d.iter().map(|d| format!("{:?} {} {} @{}", d.level(), d.code(), d.message(), d.range())).collect::<Vec<_>>().join("\n")
}
