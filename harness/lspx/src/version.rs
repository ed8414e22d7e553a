//! C15
use crate::srv::*;
use serde_json::Value as S;
use std::path::Path;
use vt_core::engine::*;
use vt_core::ensure;
use vt_core::props::schemas::*;

/// What only one version accepts, and what both accept
const FEATURES: [(&str, bool); 16] = [
    ("feat = \"\\e\"", true),
    ("feat = \"a\\x41\"", true),
    ("feat = \"\"\"\n\\e\"\"\"", true),
    ("feat = { a = 1, }", true),
    ("feat = {\n  a = 1\n}", true),
    ("feat = { # c\n  a = 1 }", true),
    ("feat = [{ b = { a = 1, } }]", true),
    ("feat = 07:32", true),
    ("feat = 1979-05-27T07:32Z", true),
    ("feat = 1979-05-27 07:32", true),
    ("\"\\e\" = 1", true),
    ("feat = [\n  \"\\x41\"]", true),
    ("feat.\"\\x41\".b = 1", true),
    ("feat = \"\\u0041\"", false),
    ("feat = { a = [\n1,\n] }", false),
    ("feat = 1979-05-27T07:32:00Z", false),
];
struct Case {
    w: World,
    config: String,
    doc: String,
    only_v11: bool,
    version: &'static str,
}
fn case(src: &mut Src, feature: Option<(&str, bool)>) -> Case {
    let w = World::generate(src, false, true);
    let (feature, only_v11) = feature.unwrap_or_else(|| *src.pick(&FEATURES));
    let (doc, ..) = w.document(true);
    let doc = doc.replacen("esc = \"\\e\"", feature, 1);
    Case { config: w.config(), doc, only_v11, version: w.toml_version(), w }
}
impl Case {
    fn attach(&self, ctx: &mut Ctx) {
        ctx.attach("tombi.toml", &self.config);
        ctx.attach("doc.toml", &self.doc);
        ctx.attach("file", FILES[self.w.file]);
        ctx.attach("the version should be", self.version);
        ctx.attach("schemas", &format!("versions {:?}, by $ref {:?}, catalog {:?}", self.w.versions, self.w.indirect, self.w.catalog));
        ctx.label(self.version);
        ctx.sample(format!("{}:\n{}\n{}", FILES[self.w.file], self.config, self.doc));
        let all = [self.w.directive_version, self.w.root_entry().and_then(|e| e.version), self.w.root_schema().and_then(|k| self.w.versions[k]), self.w.version];
        let all: Vec<_> = all.into_iter().flatten().collect();
        if all.len() > 1 {
            ctx.label("several places");
        }
        if !all.is_empty() {
            ctx.nontrivial(&(&self.config, &self.doc, self.w.file));
        }
    }
    fn rejects(&self) -> bool {
        self.only_v11 && self.version == "v1.0.0"
    }
}
/// Errors that the schemas of the generator give are not about the version
const OF_SCHEMA: [&str; 4] = ["type-mismatch", "const", "deprecated", "table-strict-additional-keys"];

fn c15_lint(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = case(src, None);
    c.attach(ctx);
    let (config, store) = match c.w.store(ctx, &c.config) {
        Ok(x) => x,
        Err(e) => return fail("config", e),
    };
    let at = format!("/vt/{}", FILES[c.w.file]);
    let options = Default::default();
    let l = tombi_linter::Linter::new(config.toml_version.unwrap_or_default(), &options, Some(itertools::Either::Right(Path::new(&at))), &store);
    let diags = ctx.block_on(l.lint(&c.doc)).err().unwrap_or_default();
    let rejected = diags.iter().any(|d| d.level() == tombi_diagnostic::Level::ERROR && !OF_SCHEMA.contains(&d.code()));
    ensure!(rejected == c.rejects(), "lint", "the version should be {}:\n{}", c.version, vt_core::tom::show_diags(&diags));
    Ok(())
}
/// A trailing comma keeps a table of v1.1.0 on several lines, and v1.0.0 has no such tables
fn c15_format(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = case(src, Some(("feat = { a = 1, b = 2, }", true)));
    c.attach(ctx);
    let (config, store) = match c.w.store(ctx, &c.config) {
        Ok(x) => x,
        Err(e) => return fail("config", e),
    };
    let at = format!("/vt/{}", FILES[c.w.file]);
    let options = Default::default();
    let f = tombi_formatter::Formatter::new(config.toml_version.unwrap_or_default(), &options, Some(itertools::Either::Right(Path::new(&at))), &store);
    match ctx.block_on(f.format(&c.doc)) {
        Err(e) => fail("error", format!("{e:?}")),
        Ok(t) => {
            ensure!(t.contains("feat = {\n") == (c.version == "v1.1.0"), "format", "the version should be {}:\n{t}", c.version);
            Ok(())
        }
    }
}
fn c15_server(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = case(src, None);
    let files = c.w.files();
    let dir = workspace(ctx, None, &[]);
    let here = format!("{}/", url(&dir));
    let local = |t: &str| t.replace("https://x.test/", &here);
    for (name, text) in &files {
        std::fs::write(dir.join(name.strip_prefix("https://x.test/").unwrap()), local(text)).unwrap();
    }
    std::fs::write(dir.join("tombi.toml"), local(&c.config)).unwrap();
    c.attach(ctx);
    let path = dir.join(FILES[c.w.file]);
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    let doc = local(&c.doc);
    std::fs::write(&path, &doc).unwrap();
    let uri = url(&path);
    let s = Srv::new(ctx, Enc::U16, true);
    s.open(ctx, &uri, 1, &doc);
    let ask = |m: &str| s.request(ctx, m, &uri, 0, 0).or_else(|e| fail("error", e));
    let v = ask("tomlVersion")?;
    ensure!(v["tomlVersion"] == c.version, "server", "the version should be {}, and the server says {v}", c.version);
    let d = ask("diagnostic")?;
    let items = d["items"].as_array().cloned().unwrap_or_default();
    let rejected = items.iter().any(|d: &S| d["severity"] == 1 && !OF_SCHEMA.contains(&d["code"].as_str().unwrap_or_default()));
    ensure!(rejected == c.rejects(), "server-lint", "the version should be {}, and the diagnostics are {d:#}", c.version);
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        rule: "a document for which at least one of the four places names a version; distinct by configuration, document and path",
        assumptions: &[],
        streams: vec![
            Stream { name: "lint", quick: 12_000, thorough: 1_000_000, case: c15_lint },
            Stream { name: "format", quick: 6_000, thorough: 500_000, case: c15_format },
            Stream { name: "server", quick: 2_000, thorough: 100_000, case: c15_server },
        ],
        probe: Some(vt_core::props::lint::lint_probe),
        min_nontrivial: 500,
    }]
}
