//! C35: which schema applies where; C12: which strict setting applies where.
use crate::engine::*;
use crate::ensure;
use crate::reftoml::Ver;
use crate::tom;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// A step of a path: a key, or an index of an array
#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    K(&'static str),
    I(usize),
}
use Step::*;
/// The tables a document may have, with their headers
const TABLES: [(&str, &[Step]); 12] = [
    ("", &[]),
    ("[tool]", &[K("tool")]),
    ("[tool.a]", &[K("tool"), K("a")]),
    ("[tool.a.x]", &[K("tool"), K("a"), K("x")]),
    ("[g.p]", &[K("g"), K("p")]),
    ("[g.q]", &[K("g"), K("q")]),
    ("[g.q.x]", &[K("g"), K("q"), K("x")]),
    ("[[list]]", &[K("list"), I(0)]),
    ("[list.x]", &[K("list"), I(0), K("x")]),
    ("[[list]]", &[K("list"), I(1)]),
    ("[\"q k\"]", &[K("q k")]),
    ("[\"*\"]", &[K("*")]),
];
/// Roots of sub-schemas: None is a wildcard
const ROOTS: [(&str, &[Option<Step>]); 19] = [
    ("tool", &[Some(K("tool"))]),
    ("tool.a", &[Some(K("tool")), Some(K("a"))]),
    ("*.a", &[None, Some(K("a"))]),
    ("tool.*.x", &[Some(K("tool")), None, Some(K("x"))]),
    ("tool.a.x", &[Some(K("tool")), Some(K("a")), Some(K("x"))]),
    ("g", &[Some(K("g"))]),
    ("g.*", &[Some(K("g")), None]),
    ("*.q", &[None, Some(K("q"))]),
    ("g.p", &[Some(K("g")), Some(K("p"))]),
    ("g.*.x", &[Some(K("g")), None, Some(K("x"))]),
    ("*.*.x", &[None, None, Some(K("x"))]),
    ("list[*]", &[Some(K("list")), None]),
    ("list[0]", &[Some(K("list")), Some(I(0))]),
    ("list[1]", &[Some(K("list")), Some(I(1))]),
    ("list[*].x", &[Some(K("list")), None, Some(K("x"))]),
    ("\"q k\"", &[Some(K("q k"))]),
    ("'q k'", &[Some(K("q k"))]),
    ("'*'", &[Some(K("*"))]),
    ("\"g\".'q'", &[Some(K("g")), Some(K("q"))]),
];
/// How well a root matches a path: more exact steps win
fn score(root: usize, path: &[Step]) -> Option<usize> {
    let (text, pat) = ROOTS[root];
    if pat.len() != path.len() {
        return None;
    }
    let mut n = 0;
    for (i, (p, s)) in pat.iter().zip(path).enumerate() {
        match (p, s) {
            (Some(p), s) if p == s => n += 1,
            // [*] is any index and * any key
            (None, I(_)) if i == 1 && text.contains("[*]") => (),
            (None, K(_)) if !(i == 1 && text.contains("[*]")) => (),
            _ => return None,
        }
    }
    Some(n)
}
#[derive(Clone, Debug)]
pub struct Entry {
    schema: usize,
    root: Option<usize>,
    include: Vec<&'static str>,
    exclude: Option<Vec<&'static str>>,
    strict: Option<bool>,
    deprecated: Option<&'static str>,
    pub version: Option<&'static str>,
    /// `overrides` that set the level at some targets
    targets: Option<(Vec<&'static str>, &'static str)>,
}
/// Patterns and the paths (relative to the configuration) they match
pub const FILES: [&str; 4] = ["doc.toml", "a/doc.toml", "a/b/x.toml", "a/b/doc.lock.toml"];
const PATTERNS: [(&str, [bool; 4]); 11] = [
    ("*.toml", [true, true, true, true]),
    ("**/*.toml", [true, true, true, true]),
    ("doc.toml", [true, true, false, false]),
    ("**/doc.toml", [true, true, false, false]),
    ("a/doc.toml", [false, true, false, false]),
    ("a/**/*.toml", [false, true, true, true]),
    ("x.toml", [false, false, true, false]),
    ("*.lock.toml", [false, false, false, true]),
    ("other.toml", [false, false, false, false]),
    ("a/b/x.toml", [false, false, true, false]),
    ("**/*.lock", [false, false, false, false]),
];
fn matches(pats: &[&'static str], file: usize) -> bool {
    pats.iter().any(|p| PATTERNS.iter().find(|q| q.0 == *p).unwrap().1[file])
}
pub fn uri(k: usize) -> String {
    format!("https://x.test/s{k}.json")
}
/// Its root table and every table below it are told apart by the constant their `which` must be
pub fn schema(k: usize, indirect: bool, version: Option<&str>) -> serde_json::Value {
    let table = |name: usize| {
        let node = json!({"$ref": "#/$defs/node"});
        let mut props = serde_json::Map::new();
        props.insert("which".into(), json!({"const": name}));
        props.insert("old".into(), json!({"type": "integer", "deprecated": true}));
        props.insert("esc".into(), json!({"type": "string"}));
        for p in ["tool", "a", "x", "g", "p", "q", "q k", "*"] {
            props.insert(p.into(), node.clone());
        }
        props.insert("list".into(), json!({"type": "array", "items": node}));
        json!({"type": "object", "properties": props})
    };
    let mut root = table(200 + k);
    let node = table(100 + k);
    let defs = if indirect {
        let r = std::mem::replace(&mut root, json!({"$ref": "#/$defs/root"}));
        json!({"node": node, "root": r})
    } else {
        json!({"node": node})
    };
    let o = root.as_object_mut().unwrap();
    o.insert("$schema".into(), "https://json-schema.org/draft/2020-12/schema".into());
    o.insert("$defs".into(), defs);
    if let Some(v) = version {
        o.insert("x-tombi-toml-version".into(), v.into());
    }
    root
}
pub struct World {
    pub file: usize,
    pub entries: Vec<Entry>,
    pub schemas: usize,
    /// #:schema
    pub named: Option<usize>,
    pub directive: Option<bool>,
    pub directive_version: Option<&'static str>,
    pub global: Option<bool>,
    pub version: Option<&'static str>,
    pub versions: Vec<Option<&'static str>>,
    pub indirect: Vec<bool>,
    /// name, patterns and schema of the catalog's entries
    pub catalog: Vec<(usize, Vec<&'static str>)>,
    pub enabled: bool,
    pub tables: Vec<usize>,
}
const VERSIONS: [&str; 2] = ["v1.0.0", "v1.1.0"];
fn opt<T: Copy>(src: &mut Src, all: &[T], n: u32, of: u32) -> Option<T> {
    src.chance(n, of).then(|| *src.pick(all))
}
impl World {
    pub fn generate(src: &mut Src, strict: bool, versions: bool) -> World {
        let n = src.usize(1, 5);
        let mut entries: Vec<Entry> = vec![];
        let mut schemas = 0;
        for _ in 0..n {
            let pats = |src: &mut Src| (0..src.usize(1, 2)).map(|_| if strict || src.bool() { "*.toml" } else { src.pick(&PATTERNS).0 }).collect::<Vec<_>>();
            let root = src.chance(2, 3).then(|| src.usize(0, ROOTS.len() - 1));
            let exclude = (!strict && src.chance(1, 4)).then(|| vec![src.pick(&PATTERNS).0]);
            schemas += 1;
            entries.push(Entry {
                schema: schemas - 1,
                root,
                include: pats(src),
                exclude,
                strict: if strict { opt(src, &[true, false], 1, 2) } else { None },
                deprecated: if strict { None } else { opt(src, &["off", "warn", "error"], 1, 2) },
                version: if root.is_none() && versions { opt(src, &VERSIONS, 1, 2) } else { None },
                targets: None,
            });
        }
        let mut catalog = vec![];
        if !strict && src.chance(1, 3) {
            for _ in 0..src.usize(1, 2) {
                catalog.push((schemas, vec![src.pick(&PATTERNS).0]));
                schemas += 1;
            }
        }
        let named = src.chance(1, 5).then(|| {
            if src.bool() {
                schemas += 1;
                schemas - 1
            } else {
                // a schema that is also a sub-schema below itself with the same strict setting is not
                // applied there: an open finding
                let free: Vec<usize> = (0..schemas).filter(|k| !entries.iter().any(|e: &Entry| e.schema == *k && e.root.is_some())).collect();
                if free.is_empty() {
                    schemas += 1;
                    schemas - 1
                } else {
                    *src.pick(&free)
                }
            }
        });
        let tables: Vec<usize> = (0..TABLES.len()).filter(|t| *t == 0 || src.chance(2, 3)).collect();
        // [list.x] needs its element, and the second element is the first if there is none before
        let tables = tables.iter().copied().filter(|t| !matches!(t, 8 | 9) || tables.contains(&7)).collect();
        World {
            file: if strict { 0 } else { src.usize(0, FILES.len() - 1) },
            entries,
            schemas,
            named,
            directive: if strict { opt(src, &[true, false], 1, 4) } else { None },
            directive_version: if versions { opt(src, &VERSIONS, 1, 4) } else { None },
            global: if strict { opt(src, &[true, false], 1, 2) } else { None },
            version: if versions { opt(src, &VERSIONS, 1, 2) } else { None },
            versions: (0..schemas).map(|_| if versions { opt(src, &VERSIONS, 1, 2) } else { None }).collect(),
            indirect: (0..schemas).map(|_| src.chance(1, 4)).collect(),
            catalog,
            enabled: strict || src.chance(9, 10),
            tables,
        }
    }
    pub fn config(&self) -> String {
        let strs = |l: &[&str]| format!("[{}]", l.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "));
        let mut o = String::new();
        if let Some(v) = self.version {
            o += &format!("toml-version = {v:?}\n");
        }
        o += "[schema]\n";
        if !self.enabled {
            o += "enabled = false\n";
        }
        if let Some(s) = self.global {
            o += &format!("strict = {s}\n");
        }
        o += &format!("catalog = {{ paths = [{}] }}\n", if self.catalog.is_empty() { "" } else { "\"https://x.test/catalog.json\"" });
        for e in &self.entries {
            o += &format!("[[schemas]]\npath = {:?}\ninclude = {}\n", uri(e.schema), strs(&e.include));
            if let Some(x) = &e.exclude {
                o += &format!("exclude = {}\n", strs(x));
            }
            if let Some(r) = e.root {
                o += &format!("root = {}\n", serde_json::to_string(ROOTS[r].0).unwrap());
            }
            if let Some(s) = e.strict {
                o += &format!("strict = {s}\n");
            }
            if let Some(v) = e.version {
                o += &format!("toml-version = {v:?}\n");
            }
            if let Some(d) = e.deprecated {
                o += &format!("lint.rules.deprecated = {d:?}\n");
            }
            if let Some((t, d)) = &e.targets {
                o += &format!("overrides = [{{ targets = {}, lint.rules.deprecated = {d:?} }}]\n", strs(t));
            }
        }
        o
    }
    /// The document, the line of each table's first key, and that of its escape
    pub fn document(&self, esc: bool) -> (String, BTreeMap<u32, usize>, Option<u32>) {
        let mut o = String::new();
        if let Some(n) = self.named {
            o += &format!("#:schema {}\n", uri(n));
        }
        if let Some(d) = self.directive {
            o += &format!("#:tombi schema.strict = {d}\n");
        }
        if let Some(d) = self.directive_version {
            o += &format!("#:tombi toml-version = {d:?}\n");
        }
        if !o.is_empty() {
            o += "\n";
        }
        let mut lines = BTreeMap::new();
        let mut at = None;
        if esc {
            at = Some(o.lines().count() as u32);
            o += "esc = \"\\e\"\n";
        }
        for t in &self.tables {
            if *t > 0 {
                o += &format!("{}\n", TABLES[*t].0);
            }
            lines.insert(o.lines().count() as u32, *t);
            o += "which = 0\nold = 1\nnew = 1\n";
        }
        (o, lines, at)
    }
    fn active(&self) -> Vec<&Entry> {
        if !self.enabled {
            return vec![];
        }
        self.entries.iter().filter(|e| matches(&e.include, self.file) && !e.exclude.as_ref().is_some_and(|x| matches(x, self.file))).collect()
    }
    pub fn root_entry(&self) -> Option<&Entry> {
        self.active().into_iter().find(|e| e.root.is_none())
    }
    pub fn toml_version(&self) -> &'static str {
        let entry = self.root_entry().filter(|_| self.enabled);
        self.directive_version.or(entry.and_then(|e| e.version)).or(self.root_schema().and_then(|k| self.versions[k])).or(self.version).unwrap_or("v1.0.0")
    }
    pub fn root_schema(&self) -> Option<usize> {
        let catalog = || self.enabled.then(|| self.catalog.iter().find(|c| matches(&c.1, self.file)).map(|c| c.0)).flatten();
        self.named.or(self.root_entry().map(|e| e.schema)).or_else(catalog)
    }
    /// The schema of a table, whether the table is its root, and the entry it comes from
    fn governs(&self, path: &[Step]) -> (Option<usize>, bool, Option<&Entry>) {
        for n in (0..=path.len()).rev() {
            let mut best: Option<(usize, &Entry)> = None;
            for e in self.active() {
                if let Some(s) = e.root.and_then(|r| score(r, &path[..n]))
                    && best.is_none_or(|b| s > b.0)
                {
                    best = Some((s, e));
                }
            }
            if let Some((_, e)) = best {
                return (Some(e.schema), n == path.len(), Some(e));
            }
        }
        (self.root_schema(), path.is_empty(), None)
    }
    /// The schemas and the catalog
    pub fn files(&self) -> Vec<(String, String)> {
        let mut files: Vec<(String, String)> = (0..self.schemas).map(|k| (uri(k), schema(k, self.indirect[k], self.versions[k]).to_string())).collect();
        let catalog: Vec<_> = self.catalog.iter().map(|(k, p)| json!({"name": format!("s{k}"), "description": "", "fileMatch": p, "url": uri(*k)})).collect();
        files.push(("https://x.test/catalog.json".into(), json!({"schemas": catalog}).to_string()));
        files
    }
    pub fn store(&self, ctx: &mut Ctx, config: &str) -> Result<(tombi_config::Config, tombi_schema_store::SchemaStore), String> {
        let path = Path::new("/vt/tombi.toml");
        let config = serde_tombi::config::from_str(config, path).map_err(|e| format!("{e:?}"))?;
        let files = self.files();
        let files: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let strict = config.schema.as_ref().and_then(|s| s.strict());
        let store = tom::mem_store(&files, tombi_schema_store::Options { strict, ..Default::default() });
        ctx.block_on(store.load_config(&config, Some(path))).map_err(|e| format!("{e:?}"))?;
        Ok((config, store))
    }
    fn lint(&self, ctx: &mut Ctx, config: &str, doc: &str) -> Result<Vec<tombi_diagnostic::Diagnostic>, String> {
        let (config, store) = self.store(ctx, config)?;
        let at = format!("/vt/{}", FILES[self.file]);
        let options = Default::default();
        let l = tombi_linter::Linter::new(config.toml_version.unwrap_or_default(), &options, Some(itertools::Either::Right(Path::new(&at))), &store);
        Ok(ctx.block_on(l.lint(doc)).err().unwrap_or_default())
    }
}
fn run(w: &World, esc: bool, ctx: &mut Ctx) -> CaseResult {
    let config = w.config();
    let (doc, lines, at) = w.document(esc);
    ctx.attach("tombi.toml", &config);
    ctx.attach("doc.toml", &doc);
    ctx.attach("file", FILES[w.file]);
    ctx.attach("world", &format!("{:?} {:?} {:?}", w.indirect, w.versions, w.catalog));
    if let Err(e) = crate::reftoml::parse_tbl(&doc, Ver::V11) {
        return fail("generator", format!("{e:?}"));
    }
    if lines.values().any(|t| w.governs(TABLES[*t].1).2.is_some()) || w.root_schema().is_some() {
        ctx.nontrivial(&(&config, &doc, w.file));
    }
    ctx.sample(format!("{}:\n{config}\n{doc}", FILES[w.file]));
    let diags = match w.lint(ctx, &config, &doc) {
        Ok(d) => d,
        Err(e) => return fail("config", e),
    };
    if let Some(l) = at {
        let v = w.toml_version();
        ctx.label(v);
        let rejected = diags.iter().any(|d| d.range().start.line == l && d.level() == tombi_diagnostic::Level::ERROR);
        ensure!(rejected == (v == "v1.0.0"), "version", "the version should be {v}:\n{}", tom::show_diags(&diags));
        return Ok(());
    }
    type Seen = (BTreeSet<String>, bool, Option<&'static str>);
    let mut got: BTreeMap<u32, Seen> = BTreeMap::new();
    for d in &diags {
        // the keys of a table are in three lines
        let start = d.range().start.line;
        let line = |l: u32| lines.keys().rev().copied().find(|x| *x <= l).unwrap_or(0);
        match d.code() {
            "const" => {
                let n = d.message().split(|c: char| !c.is_ascii_digit()).find_map(|s| s.parse::<usize>().ok().filter(|n| *n >= 100)).unwrap_or(999);
                let s = format!("s{}{}", n % 100, if n >= 200 { "^" } else { "" });
                ensure!(lines.contains_key(&start), "place", "{d:?}");
                got.entry(line(start)).or_default().0.insert(s);
            }
            "table-strict-additional-keys" => got.entry(line(start)).or_default().1 = true,
            "deprecated" => got.entry(line(start)).or_default().2 = Some(if d.level() == tombi_diagnostic::Level::ERROR { "error" } else { "warn" }),
            _ => return fail(format!("unexpected:{}", d.code()), tom::show_diags(&diags)),
        }
    }
    for (l, t) in &lines {
        let path = TABLES[*t].1;
        let (k, at_root, entry) = w.governs(path);
        let g = got.get(l).cloned().unwrap_or_default();
        let which: BTreeSet<String> = k.iter().map(|k| format!("s{k}{}", if at_root { "^" } else { "" })).collect();
        let show = || format!("table {:?} ({path:?})\n{}", TABLES[*t].0, tom::show_diags(&diags));
        ensure!(g.0 == which, "schema", "{which:?} should apply, and {:?} does: {}", g.0, show());
        let strict = w.directive.or(entry.and_then(|e| e.strict)).or(w.root_entry().and_then(|e| e.strict)).or(w.global).unwrap_or(true) && k.is_some();
        ensure!(g.1 == strict, "strict", "strict mode should be {strict}: {}", show());
        let level = match (k, entry) {
            (None, _) => Some("off"),
            (Some(_), Some(e)) if e.deprecated.is_some() => e.deprecated,
            // whether a sub-schema has the level of the root's entry is left open
            (Some(_), Some(_)) if w.entries.iter().any(|e| e.deprecated.is_some()) => None,
            (Some(_), Some(_)) => Some("warn"),
            // the entry of another schema than the one named
            (Some(_), None) if w.named.is_some() => None,
            (Some(_), None) => w.root_entry().and_then(|e| e.deprecated).or(Some("warn")),
        };
        if let Some(level) = level {
            ensure!(g.2.unwrap_or("off") == level, "deprecated", "the level of `old` should be {level}, and is {:?}: {}", g.2, show());
        }
    }
    Ok(())
}
pub fn c12_settings(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    run(&World::generate(src, true, false), false, ctx)
}
fn c35_schemas(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    run(&World::generate(src, false, false), false, ctx)
}
fn c35_versions(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    run(&World::generate(src, false, true), true, ctx)
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C35",
        rule: "a document to which a schema applies; distinct by configuration, document and path",
        assumptions: &[],
        streams: vec![Stream { name: "schemas", quick: 15_000, thorough: 2_000_000, case: c35_schemas }, Stream { name: "versions", quick: 10_000, thorough: 1_000_000, case: c35_versions }],
        probe: Some(super::lint::lint_probe),
        min_nontrivial: 500,
    }]
}
