//! Documents for the language server, with the files around them.
use crate::srv::*;
use serde_json::json;
use vt_core::engine::*;
use vt_core::gentoml as g;
use vt_core::{genschema as gs, refschema::Dialect};

pub struct Doc {
    /// file name in the workspace
    pub file: String,
    pub text: String,
    pub config: String,
    pub files: Vec<(String, String)>,
    pub valid: bool,
}
impl Doc {
    pub fn attach(&self, ctx: &mut Ctx) {
        ctx.attach(&self.file, &self.text);
        ctx.attach("tombi.toml", &self.config);
        for (p, t) in &self.files {
            ctx.attach(p, t);
        }
    }
    pub fn workspace(&self, ctx: &Ctx) -> std::path::PathBuf {
        let files: Vec<(&str, &str)> = self.files.iter().map(|(a, b)| (a.as_str(), b.as_str())).chain([(self.file.as_str(), self.text.as_str())]).collect();
        workspace(ctx, (self.file != "tombi.toml").then_some(&self.config), &files)
    }
}
const CARGO: &[&str] = &[
    "[package]\nname = \"a\"\nversion = \"0.1.0\"\n",
    "[package]\nname = \"a\"\nversion.workspace = true\nedition = { workspace = true }\n",
    "[dependencies]\nserde = \"1.0\"\nfoo = { path = \"foo\", features = [\"x\"] }\nbar.workspace = true\n",
    "[dependencies.foo]\npath = \"foo\"\nfeatures = [\"x\", \"nope\"]\n",
    "[dev-dependencies]\nfoo = { workspace = true, features = [\"\"] }\nlog = { version = \"0.4\", optional = true }\n",
    "[build-dependencies]\ncc = { git = \"https://x.test/cc\" }\nbaz = { path = \"../baz\" }\n",
    "[target.'cfg(unix)'.dependencies]\nlibc = \"0.2\"\nfoo.path = \"foo\"\n",
    "[features]\ndefault = [\"y\", \"foo/x\", \"dep:log\"]\ny = []\n\"é\" = [\"foo?/x\"]\n",
    "[workspace]\nmembers = [\"foo\", \"crates/*\"]\nresolver = \"3\"\nexclude = [\"old\"]\n",
    "[workspace.package]\nversion = \"1.2.3\"\nedition = \"2024\"\n",
    "[workspace.dependencies]\nbar = { path = \"crates/bar\", version = \"1\" }\nserde = { version = \"1\", features = [\"derive\"] }\n",
    "[[bin]]\nname = \"tool\"\npath = \"src/main.rs\"\n",
    "[patch.crates-io]\nfoo = { path = 'foo' }\n",
    "[profile.release]\nlto = true\nopt-level = 3\n",
    "[lints]\nworkspace = true\n",
];
const PYPROJECT: &[&str] = &[
    "[project]\nname = \"a\"\nversion = \"1\"\ndependencies = [\"requests>=2\", \"foo[bar]==1.0; python_version>'3'\", \"local\"]\n",
    "[project.optional-dependencies]\ndev = [\"pytest\", \"\"]\n",
    "[dependency-groups]\ntest = [\"pytest>=8\", { include-group = \"lint\" }]\nlint = [\"ruff\"]\n",
    "[tool.uv.sources]\nlocal = { path = \"local\" }\nfoo = { workspace = true }\nreq = { git = \"https://x.test/r\" }\n",
    "[tool.uv.workspace]\nmembers = [\"packages/*\", \"local\"]\n",
    "[tool.uv]\ndev-dependencies = [\"black\", \"mypy >= 1\"]\n",
    "[build-system]\nrequires = [\"hatchling\"]\nbuild-backend = \"hatchling.build\"\n",
    "[tool.poetry.dependencies]\npython = \"^3.10\"\nfoo = { version = \"1\", extras = [\"x\"] }\n",
    "[tool.tombi]\ntoml-version = \"v1.0.0\"\n",
    "[project.scripts]\nx = \"a:main\"\n",
];
const TOMBI: &[&str] = &[
    "toml-version = \"v1.0.0\"\n",
    "[schema]\nenabled = true\nstrict = false\ncatalog = { paths = [\"catalog.json\"] }\n",
    "[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n",
    "[[schemas]]\nroot = \"tool.x\"\npath = \"nope.json\"\ninclude = []\n",
    "[format.rules]\nline-width = 100\nindent-style = \"tab\"\n",
    "[lint.rules]\nkey-empty = \"error\"\n",
    "[files]\ninclude = [\"**/*.toml\"]\nexclude = [\"x\"]\n",
    "[[overrides]]\nfiles.include = [\"a.toml\"]\nformat.enabled = false\n",
    "[extensions]\n\"tombi-toml/cargo\" = { enabled = true }\n",
    "[lsp]\nhover.enabled = true\ncompletion = { enabled = true }\n",
];
fn special(src: &mut Src) -> Doc {
    let kind = src.below(3) as usize;
    let parts = [CARGO, PYPROJECT, TOMBI][kind];
    let mut text = String::new();
    for _ in 0..src.usize(1, 5) {
        text += src.pick(parts);
        if src.chance(1, 3) {
            text += "\n";
        }
    }
    if kind == 2 {
        // key-values at the root first
        if let Some(i) = text.find("toml-version") {
            text = format!("toml-version = \"v1.0.0\"\n{}", text[..i].to_string() + &text[i..].replacen("toml-version = \"v1.0.0\"\n", "", 1));
        }
    }
    let mut files: Vec<(String, String)> = match kind {
        0 => [
            ("foo/Cargo.toml", "[package]\nname = \"foo\"\nversion = \"0.1.0\"\n[features]\nx = []\nz = [\"x\"]\n[dependencies]\nbar = { workspace = true }\n"),
            ("crates/bar/Cargo.toml", "[package]\nname = \"bar\"\nversion.workspace = true\n[features]\ny = []\n"),
            ("src/main.rs", "fn main() {}\n"),
        ]
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .to_vec(),
        1 => [
            ("local/pyproject.toml", "[project]\nname = \"local\"\nversion = \"2\"\ndependencies = [\"requests\"]\n"),
            ("packages/foo/pyproject.toml", "[project]\nname = \"foo\"\n[project.optional-dependencies]\nbar = []\n"),
        ]
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .to_vec(),
        _ => vec![("s.json".into(), "{\"type\": \"object\"}".into()), ("catalog.json".into(), "{\"schemas\": []}".into())],
    };
    // sometimes the document is a member of the workspace around it
    let mut file = ["Cargo.toml", "pyproject.toml", "tombi.toml"][kind].to_string();
    if kind < 2 && src.chance(1, 3) {
        let mut root = String::new();
        for _ in 0..src.usize(1, 4) {
            root += src.pick(parts);
        }
        files.push((file.clone(), root));
        file = format!("{}/{file}", if kind == 0 { "foo" } else { "local" });
        files.retain(|f| f.0 != file);
    }
    let valid = vt_core::reftoml::parse_tbl(&text, vt_core::reftoml::Ver::V11).is_ok();
    Doc { file, text, config: "schema.catalog = { paths = [] }\n".into(), files, valid }
}
pub fn schema_doc(src: &mut Src) -> Doc {
    let mut c = gs::Cfg::random(src);
    c.rec = 0;
    c.dialect = Dialect::D2020;
    let mut schema = gs::root(src, &c);
    if src.chance(1, 3) {
        schema["properties"]["when"] = json!({"type": "string", "format": "date-time", "title": "When", "description": "d\n* x", "default": "2020-01-01", "examples": ["a", 1]});
        schema["x-tombi-table-keys-order"] = json!("schema");
    }
    let inst = gs::Inst { root: &schema, dates: false }.table(src, schema.as_object().unwrap(), 3);
    let mut text = gs::document(src, &inst);
    let mut config = "schema.catalog = { paths = [] }\n".to_string();
    if src.bool() {
        text = format!("#:schema ./s.json\n\n{text}");
    } else {
        config += "[[schemas]]\npath = \"s.json\"\ninclude = [\"*.toml\"]\n";
    }
    let valid = vt_core::reftoml::parse_tbl(&text, vt_core::reftoml::Ver::V10).is_ok();
    Doc { file: "a.toml".into(), text, config, files: vec![("s.json".into(), schema.to_string())], valid }
}
const DIRECTIVES: &[&str] = &[
    "#:tombi toml-version = \"v1.1.0\"\n",
    "#:schema ./none.json\n",
    "#:schema \n",
    "#:tombi\n",
    "#:tombi format.\n",
    "#:tombi lint.disabled = true\n",
    "# tombi: format.rules.table-keys-order = \"ascending\"\n",
    "# tombi: lint.rules.\n",
    "# tombi:\n",
    "#:tombi schema.strict = \n",
];
pub fn plain(src: &mut Src) -> Doc {
    let mut c = g::Cfg::random(src);
    c.max_stmts = c.max_stmts.min(8);
    let mut text = g::document(src, &c);
    let mut valid = true;
    if src.chance(1, 4) {
        let d = *src.pick(DIRECTIVES);
        text = format!("{d}{text}");
        valid = false; // not relied on
    }
    let mut config = "schema.catalog = { paths = [] }\n".to_string();
    if c.ver == vt_core::reftoml::Ver::V11 {
        config = format!("toml-version = \"v1.1.0\"\n{config}");
    }
    Doc { file: "a.toml".into(), text, config, files: vec![], valid }
}
pub fn any(src: &mut Src) -> Doc {
    let mut d = match src.weighted(&[3, 3, 3]) {
        0 => plain(src),
        1 => schema_doc(src),
        _ => special(src),
    };
    match src.weighted(&[4, 2, 2, 1]) {
        0 => {}
        1 => {
            d.text = g::mutate(src, &d.text);
            d.valid = false;
        }
        2 => {
            // half typed: one line is cut, or something begun
            let ls: Vec<&str> = d.text.split('\n').collect();
            let i = src.usize(0, ls.len() - 1);
            let cut = if src.bool() {
                let n = ls[i].chars().count();
                ls[i].chars().take(src.usize(0, n)).collect::<String>()
            } else {
                format!("{}{}", ls[i], src.pick(&[".", " =", " = ", "\n[", "\n[[", "\na.", "\na = {", "\na = [", ",", "\"", "'", "\nfoo", "\nfoo = { ", "\nfoo.", " # tombi: ", "\n#:", "\n\"\"\""]))
            };
            let mut v: Vec<String> = ls.iter().map(|l| l.to_string()).collect();
            v[i] = cut;
            d.text = v.join("\n");
            d.valid = false;
        }
        _ => {
            d.text = g::mutate_lines(src, &d.text);
            d.valid = false;
        }
    }
    // \r alone ends a line for an editor, but not for TOML, where it is an error
    let mut t = d.text.replace("\r\n", "\n").replace('\r', "");
    if src.chance(1, 6) {
        t = t.replace('\n', "\r\n");
    }
    d.text = t;
    d
}
pub fn boundary(src: &mut Src, text: &str) -> usize {
    let b: Vec<usize> = text.char_indices().map(|c| c.0).chain([text.len()]).filter(|i| !(*i > 0 && text.as_bytes()[i - 1] == b'\r' && text.as_bytes().get(*i) == Some(&b'\n'))).collect();
    *src.pick(&b)
}
