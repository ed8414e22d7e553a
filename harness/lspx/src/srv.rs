//! A language server in the process, its client's side of positions and edits.
use serde_json::{Value as S, json};
use std::path::{Path, PathBuf};
use tombi_lsp::Backend;
use tower_lsp::lsp_types as l;
use tower_lsp::{LanguageServer, LspService};
use vt_core::engine::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    U8,
    U16,
    U32,
}
impl Enc {
    pub fn len(self, s: &str) -> u32 {
        match self {
            Enc::U8 => s.len() as u32,
            Enc::U16 => s.encode_utf16().count() as u32,
            Enc::U32 => s.chars().count() as u32,
        }
    }
    fn name(self) -> &'static str {
        match self {
            Enc::U8 => "utf-8",
            Enc::U16 => "utf-16",
            Enc::U32 => "utf-32",
        }
    }
}

/// The lines of a text without their ends
pub fn lines(text: &str) -> Vec<&str> {
    text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect()
}
/// Byte offset of a position, if it is one of the text
pub fn offset(text: &str, line: u32, character: u32, enc: Enc) -> Option<usize> {
    let mut start = 0;
    for (i, l) in text.split('\n').enumerate() {
        if i as u32 == line {
            let l = if start + l.len() < text.len() { l.strip_suffix('\r').unwrap_or(l) } else { l };
            let mut at = 0;
            for (b, c) in l.char_indices() {
                if at == character {
                    return Some(start + b);
                }
                at += enc.len(&l[b..b + c.len_utf8()]);
            }
            return (at == character).then_some(start + l.len());
        }
        start += l.len() + 1;
    }
    None
}
pub fn position(text: &str, at: usize, enc: Enc) -> (u32, u32) {
    let before = &text[..at];
    let line = before.matches('\n').count() as u32;
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    (line, enc.len(&before[start..]))
}
/// As a client applies text edits: all refer to the text before
pub fn apply(text: &str, edits: &[l::TextEdit], enc: Enc) -> Result<String, String> {
    let mut v = vec![];
    for (i, e) in edits.iter().enumerate() {
        let at = |p: l::Position| offset(text, p.line, p.character, enc).ok_or_else(|| format!("no such position {}:{}", p.line, p.character));
        let (a, b) = (at(e.range.start)?, at(e.range.end)?);
        if a > b {
            return Err(format!("a range ends before it starts: {:?}", e.range));
        }
        v.push((a, b, i));
    }
    v.sort();
    let mut out = String::new();
    let mut last = 0;
    for (a, b, i) in v {
        if a < last {
            return Err(format!("overlapping edits: {:?}", edits[i].range));
        }
        out += &text[last..a];
        out += &edits[i].new_text;
        last = b;
    }
    Ok(out + &text[last..])
}

pub struct Srv {
    service: LspService<Backend>,
    _socket: tower_lsp::ClientSocket,
    pub enc: Enc,
    /// Names of the types of semantic tokens
    pub legend: Vec<String>,
}
impl Srv {
    pub fn new(ctx: &Ctx, enc: Enc, pull: bool) -> Srv {
        let options = tombi_lsp::backend::Options { offline: Some(true), no_cache: Some(true) };
        let (service, socket) = LspService::new(|client| Backend::new(client, &options));
        let mut caps = json!({"general": {"positionEncodings": [enc.name()]}, "textDocument": {}});
        if enc == Enc::U16 {
            caps["general"] = json!({});
        }
        if pull {
            caps["textDocument"] = json!({"diagnostic": {"dynamicRegistration": true}});
        }
        let params: l::InitializeParams = serde_json::from_value(json!({"capabilities": caps, "processId": null, "rootUri": null})).unwrap();
        let mut s = Srv { service, _socket: socket, enc, legend: vec![] };
        let r = serde_json::to_value(ctx.block_on(s.b().initialize(params)).unwrap()).unwrap();
        let legend = r["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"].as_array();
        s.legend = legend.map_or(vec![], |v| v.iter().map(|t| t.as_str().unwrap_or("").into()).collect());
        // what `initialized` does in the background
        let _ = ctx.block_on(s.b().config_manager.load());
        s
    }
    pub fn b(&self) -> &Backend {
        self.service.inner()
    }
    pub fn open(&self, ctx: &Ctx, uri: &l::Url, version: i32, text: &str) {
        let p = l::DidOpenTextDocumentParams { text_document: l::TextDocumentItem { uri: uri.clone(), language_id: "toml".into(), version, text: text.into() } };
        run(ctx, "didOpen", self.b().did_open(p));
    }
    pub fn change(&self, ctx: &Ctx, uri: &l::Url, version: i32, texts: &[&str]) {
        let p = l::DidChangeTextDocumentParams {
            text_document: l::VersionedTextDocumentIdentifier { uri: uri.clone(), version },
            content_changes: texts.iter().map(|t| l::TextDocumentContentChangeEvent { range: None, range_length: None, text: t.to_string() }).collect(),
        };
        run(ctx, "didChange", self.b().did_change(p));
    }
    pub fn save(&self, ctx: &Ctx, uri: &l::Url, text: Option<&str>) {
        run(ctx, "didSave", self.b().did_save(l::DidSaveTextDocumentParams { text_document: id(uri), text: text.map(Into::into) }));
    }
    pub fn close(&self, ctx: &Ctx, uri: &l::Url) {
        run(ctx, "didClose", self.b().did_close(l::DidCloseTextDocumentParams { text_document: id(uri) }));
    }
    pub fn watched(&self, ctx: &Ctx, uri: &l::Url) {
        run(ctx, "didChangeWatchedFiles", self.b().did_change_watched_files(l::DidChangeWatchedFilesParams { changes: vec![l::FileEvent { uri: uri.clone(), typ: l::FileChangeType::CHANGED }] }));
    }
    pub fn format(&self, ctx: &Ctx, uri: &l::Url) -> Result<Option<Vec<l::TextEdit>>, String> {
        let p = serde_json::from_value(json!({"textDocument": {"uri": uri}, "options": {"tabSize": 3, "insertSpaces": true}})).unwrap();
        run(ctx, "formatting", self.b().formatting(p)).map_err(|e| e.to_string())
    }
    /// Any request by its name; the answer as JSON
    pub fn request(&self, ctx: &Ctx, method: &str, uri: &l::Url, line: u32, character: u32) -> Result<S, String> {
        let pos = json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": character}, "context": {"includeDeclaration": true, "triggerKind": 1}});
        let doc = json!({"textDocument": {"uri": uri}});
        let range = json!({"textDocument": {"uri": uri}, "range": {"start": {"line": line, "character": character}, "end": {"line": line, "character": character}}, "context": {"diagnostics": []}});
        macro_rules! call {
            ($f:ident, $p:expr) => {
                run(ctx, method, self.b().$f(serde_json::from_value($p).unwrap())).map(|r| serde_json::to_value(r).unwrap()).map_err(|e| format!("{method}: {e}"))
            };
        }
        match method {
            "hover" => call!(hover, pos),
            "completion" => call!(completion, pos),
            "definition" => call!(goto_definition, pos),
            "typeDefinition" => call!(goto_type_definition, pos),
            "declaration" => call!(goto_declaration, pos),
            "references" => call!(references, pos),
            "codeAction" => call!(code_action, range),
            "documentLink" => call!(document_link, doc),
            "documentSymbol" => call!(document_symbol, doc),
            "foldingRange" => call!(folding_range, doc),
            "inlayHint" => {
                let mut r = range;
                r["range"] = json!({"start": {"line": 0, "character": 0}, "end": {"line": line, "character": character}});
                call!(inlay_hint, r)
            }
            "semanticTokens" => call!(semantic_tokens_full, doc),
            "formatting" => {
                let mut d = doc;
                d["options"] = json!({"tabSize": 3, "insertSpaces": true});
                call!(formatting, d)
            }
            "diagnostic" => call!(diagnostic, doc),
            "tomlVersion" => call!(get_toml_version, json!({"uri": uri})),
            "status" => call!(get_status, json!({"uri": uri})),
            _ => Err(format!("no such request: {method}")),
        }
    }
}
/// A request that does not come to an end within this time never will
fn run<F: std::future::Future>(ctx: &Ctx, what: &str, f: F) -> F::Output {
    match ctx.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(60), f).await }) {
        Ok(r) => r,
        Err(_) => panic!("{what} was not answered within 60 s"),
    }
}
pub const AT_POSITION: [&str; 8] = ["hover", "completion", "definition", "typeDefinition", "declaration", "references", "codeAction", "inlayHint"];
pub const OF_DOCUMENT: [&str; 7] = ["documentLink", "documentSymbol", "foldingRange", "semanticTokens", "diagnostic", "tomlVersion", "status"];

pub fn id(uri: &l::Url) -> l::TextDocumentIdentifier {
    l::TextDocumentIdentifier { uri: uri.clone() }
}
/// A fresh directory of the case with a configuration; files are (path, content)
pub fn workspace(ctx: &Ctx, config: Option<&str>, files: &[(&str, &str)]) -> PathBuf {
    let dir = ctx.scratch.join("ws");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    for (p, t) in config.iter().map(|c| ("tombi.toml", *c)).chain(files.iter().copied()) {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
    dir.canonicalize().unwrap()
}
pub fn url(path: &Path) -> l::Url {
    l::Url::from_file_path(path).unwrap()
}
/// Every range in an answer that is about the document must lie in it
pub fn check_ranges(v: &S, uri: &str, text: &str, enc: Enc) -> Result<(), String> {
    fn walk(v: &S, uri: &str, ls: &[&str], enc: Enc) -> Result<(), String> {
        match v {
            S::Array(a) => a.iter().try_for_each(|v| walk(v, uri, ls, enc)),
            S::Object(o) => {
                let other = |k: &str| o.get(k).and_then(|u| u.as_str()).is_some_and(|u| u != uri);
                if other("uri") || other("targetUri") {
                    return Ok(());
                }
                if let Some(t) = o.get("textDocument")
                    && t["uri"].as_str().is_some_and(|u| u != uri)
                {
                    return Ok(());
                }
                if let (Some(a), Some(b)) = (o.get("start"), o.get("end"))
                    && a.is_object()
                {
                    let p = |p: &S| (p["line"].as_u64().unwrap_or(0), p["character"].as_u64().unwrap_or(0));
                    let (a, b) = (p(a), p(b));
                    let inside = |(l, c): (u64, u64)| ls.get(l as usize).is_some_and(|t| c <= enc.len(t) as u64);
                    if a > b || !inside(a) || !inside(b) {
                        return Err(format!("the range {}:{}-{}:{} is not one of the document", a.0, a.1, b.0, b.1));
                    }
                }
                for (k, v) in o {
                    if k == "changes" {
                        if let Some(v) = v.get(uri) {
                            walk(v, uri, ls, enc)?;
                        }
                    } else if k != "data" {
                        walk(v, uri, ls, enc)?;
                    }
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    walk(v, uri, &lines(text), enc)
}
