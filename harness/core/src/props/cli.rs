//! C27: what the command line tool does to files, and what it says with its exit status.
//! What a file's formatted text and diagnostics are is the library's business (other properties).
use crate::engine::*;
use crate::ensure;
use crate::gentoml;
use crate::reftoml::Ver;
use crate::tom;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::Path;
use std::process::{Command, Stdio};

const TEXTS: [&str; 16] = [
    "a = 1\n",
    "",
    "a=1\n",
    "a = 1",
    "[t]\nb = 2\n\n\n\n\n[u]\n",
    "a = [1,2]\r\nb = 2\r\n",
    "# only a comment",
    // broken
    "a = \n",
    "a = 1\na = 2\n",
    "[t\n",
    "a = { b = 1,\n c = 2 }\n",
    "\u{feff}a = 1\n",
    // warnings only
    "\"\" = 1\n",
    "a.b = 1\nc = 2\na.d = 3\n",
    "a = 1 # tombi: lint.rules.key-empty.disabled = true\n",
    // an error of a schema
    "port = \"x\"\n",
];
const NAMES: [&str; 9] = ["a.toml", "b.toml", "sub/a.toml", "sub/deep/c.toml", "skip.toml", "sub/skip.toml", "raw.toml", "sub/raw.toml", "näme x.toml"];

struct World {
    files: BTreeMap<&'static str, Vec<u8>>,
    config: Option<String>,
    excluded: bool,
}
fn world(src: &mut Src) -> World {
    let mut files = BTreeMap::new();
    let mut names = NAMES.to_vec();
    src.shuffle(&mut names);
    for n in &names[..src.usize(1, 6)] {
        let text = match src.weighted(&[6, 3, 1]) {
            0 => src.pick(&TEXTS).as_bytes().to_vec(),
            1 => {
                let cfg = gentoml::Cfg::random(src);
                let d = gentoml::document(src, &cfg);
                if src.chance(1, 4) { gentoml::mutate(src, &d) } else { d }.into_bytes()
            }
            _ => b"a = \"\xff\"\n".to_vec(),
        };
        files.insert(*n, text);
    }
    let mut excluded = false;
    let config = src.chance(4, 5).then(|| {
        let mut c = String::new();
        if src.chance(1, 3) {
            c += &format!("toml-version = \"{}\"\n", src.pick(&["v1.0.0", "v1.1.0"]));
        }
        if src.chance(1, 3) {
            excluded = true;
            c += "[files]\nexclude = [\"**/skip.toml\"]\n";
        }
        if src.chance(1, 2) {
            c += &format!("[format.rules]\n{}\n", src.pick(&["indent-width = 4", "line-width = 40", "string-quote-style = \"preserve\"", "line-ending = \"crlf\""]));
        }
        if src.chance(1, 2) {
            c += &format!("[lint.rules]\n{} = \"{}\"\n", src.pick(&["key-empty", "dotted-keys-out-of-order", "tables-out-of-order"]), src.pick(&["off", "warn", "error"]));
        }
        c += "[schema]\ncatalog = { paths = [] }\n";
        if src.chance(1, 2) {
            c += "[[schemas]]\npath = \"schema.json\"\ninclude = [\"a.toml\", \"sub/*.toml\"]\n";
        }
        if src.chance(1, 2) {
            let what = *src.pick(&["format.enabled = false", "lint.enabled = false", "format.enabled = false\nlint.enabled = false", "format.rules.indent-width = 8\nlint.rules.key-empty = \"error\""]);
            c += &format!("[[overrides]]\nfiles.include = [\"**/raw.toml\"]\n{what}\n");
        }
        if src.chance(1, 20) {
            c += "x = \n";
        }
        c
    });
    World { files, config, excluded }
}
fn snapshot(dir: &Path) -> BTreeMap<String, (Vec<u8>, std::time::SystemTime)> {
    fn walk(base: &Path, dir: &Path, out: &mut BTreeMap<String, (Vec<u8>, std::time::SystemTime)>) {
        for e in std::fs::read_dir(dir).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() {
                walk(base, &p, out);
            } else {
                let m = std::fs::metadata(&p).unwrap().modified().unwrap();
                out.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned(), (std::fs::read(&p).unwrap(), m));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}
/// What the library says of one text: its formatted text and whether there are errors and any diagnostics
struct Library {
    config: tombi_config::Config,
    path: Option<std::path::PathBuf>,
    store: tombi_schema_store::SchemaStore,
}
enum Formatted {
    Disabled,
    Error,
    Text(String),
}
impl Library {
    fn new(ctx: &Ctx, dir: &Path) -> Option<Library> {
        let (config, path, _) = serde_tombi::config::load_with_path_and_level(Some(dir.to_path_buf())).ok()?;
        let store = tom::mem_store(&[], tombi_schema_store::Options { offline: Some(true), strict: config.schema.as_ref().and_then(|s| s.strict()), ..Default::default() });
        ctx.block_on(store.load_config(&config, path.as_deref())).ok()?;
        Some(Library { config, path, store })
    }
    fn version(&self) -> Ver {
        match self.config.toml_version {
            Some(tombi_config::TomlVersion::V1_1_0) => Ver::V11,
            _ => Ver::V10,
        }
    }
    fn format(&self, ctx: &Ctx, file: Option<&Path>, text: &[u8]) -> Formatted {
        let Some(o) = tombi_glob::get_format_options(&self.config, file, self.path.as_deref()) else { return Formatted::Disabled };
        let Ok(text) = std::str::from_utf8(text) else { return Formatted::Error };
        let f = tombi_formatter::Formatter::new(self.version().tombi(), &o, file.map(itertools::Either::Right), &self.store);
        match ctx.block_on(f.format(text)) {
            Ok(t) => Formatted::Text(t),
            Err(_) => Formatted::Error,
        }
    }
    /// errors, diagnostics
    fn lint(&self, ctx: &Ctx, file: Option<&Path>, text: &[u8]) -> (bool, bool) {
        let Some(o) = tombi_glob::get_lint_options(&self.config, file, self.path.as_deref()) else { return (false, false) };
        let Ok(text) = std::str::from_utf8(text) else { return (true, true) };
        let d = tom::lint_with(ctx, text, self.version(), &o, file, &self.store);
        (d.iter().any(|d| d.is_error()), !d.is_empty())
    }
}
struct Out {
    code: Option<i32>,
    stdout: Vec<u8>,
    stderr: String,
}
fn run(dir: &Path, args: &[String], stdin: Option<&[u8]>) -> Out {
    let cli = std::env::var("VT_CLI").expect("VT_CLI names the tombi binary");
    let mut c = Command::new(cli);
    c.args(args).current_dir(dir).env("TOMBI_NO_COLOR", "1").stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut child = c.spawn().expect("the binary starts");
    if let Some(b) = stdin {
        let mut pipe = child.stdin.take().unwrap();
        let b = b.to_vec();
        std::thread::spawn(move || {
            let _ = pipe.write_all(&b);
        });
    }
    let o = child.wait_with_output().unwrap();
    Out { code: o.status.code(), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).into_owned() }
}
fn lines(n: usize, one: &str, many: &str) -> Vec<String> {
    match n {
        0 => vec![],
        1 => vec![format!("1 file {one}")],
        _ => vec![format!("{n} files {many}")],
    }
}
fn c27_cli(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let w = world(src);
    let dir = ctx.scratch.join("cli");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sub/deep")).unwrap();
    std::fs::create_dir_all(dir.join("empty")).unwrap();
    let dir = dir.canonicalize().unwrap();
    for (n, t) in &w.files {
        std::fs::write(dir.join(n), t).unwrap();
    }
    std::fs::write(dir.join("other.txt"), "a=1").unwrap();
    std::fs::write(dir.join("schema.json"), r#"{"type":"object","properties":{"port":{"type":"integer"}},"x-tombi-table-keys-order":"ascending"}"#).unwrap();
    match &w.config {
        Some(c) => {
            std::fs::write(dir.join("tombi.toml"), c).unwrap();
            ctx.attach("tombi.toml", c);
        }
        None => (),
    }
    for (n, t) in &w.files {
        ctx.attach(n, &String::from_utf8_lossy(t));
    }
    // the arguments and the files they mean
    let lint = src.bool();
    let check = !lint && src.chance(1, 2);
    let strict = lint && src.chance(1, 2);
    let quiet = src.chance(1, 5);
    let mut args: Vec<String> = vec![if lint { "lint" } else { "format" }.into(), "--offline".into()];
    for (on, a) in [(check, "--check"), (strict, "--error-on-warnings"), (quiet, "--quiet"), (!lint && src.chance(1, 5), "--diff")] {
        if on {
            args.push(a.into());
        }
    }
    let before = snapshot(&dir);
    let library = Library::new(ctx, &dir);
    let below = |d: &str| before.keys().filter(|f| f.ends_with(".toml") && f.starts_with(d)).cloned().collect::<BTreeSet<String>>();
    // a configuration that does not parse is as good as none
    let excluded = w.excluded && library.as_ref().is_some_and(|l| l.config.files.as_ref().is_some_and(|f| f.exclude.is_some()));
    let skipped_name = |f: &str| excluded && f.ends_with("skip.toml");
    // standard input
    if src.chance(1, 4) {
        args.push("-".into());
        let name = src.chance(2, 3).then(|| *src.pick(&NAMES));
        if let Some(n) = name {
            args.push("--stdin-filename".into());
            args.push(n.into());
        }
        let text = if src.chance(2, 3) { src.pick(&TEXTS).as_bytes().to_vec() } else { w.files.values().next().unwrap().clone() };
        ctx.attach("arguments", &format!("{args:?}"));
        ctx.attach("stdin", &String::from_utf8_lossy(&text));
        let got = run(&dir, &args, Some(&text));
        let shown = format!("{args:?} exits with {:?}\nstdout: {:?}\nstderr: {}", got.code, String::from_utf8_lossy(&got.stdout), got.stderr);
        ensure!(snapshot(&dir) == before, "stdin-touches", "{shown}\na file changed");
        let path = name.map(|n| dir.join(n));
        let Some(lib) = library else {
            ensure!(got.code == Some(1), "broken-config", "{shown}\nthe configuration is broken");
            ensure!(lint || check || got.stdout == text, "stdin-echo", "{shown}\nthe text is lost");
            return Ok(());
        };
        let utf8 = std::str::from_utf8(&text).is_ok();
        if lint {
            let (errors, any) = lib.lint(ctx, path.as_deref(), &text);
            ensure!(got.code == Some((errors || strict && any) as i32), "lint-exit", "{shown}\nerrors: {errors}, diagnostics: {any}");
            ensure!(got.stdout.is_empty(), "stdout", "{shown}");
        } else {
            let (want, changed) = match lib.format(ctx, path.as_deref(), &text) {
                Formatted::Disabled => (Some(text.clone()), Ok(false)),
                Formatted::Text(t) => (Some(t.clone().into_bytes()), Ok(t.as_bytes() != text)),
                // what cannot be formatted comes out as it is; what is no text cannot
                Formatted::Error => (utf8.then(|| text.clone()), Err(())),
            };
            let code = match changed {
                Err(()) => 1,
                Ok(c) => (c && check) as i32,
            };
            ensure!(got.code == Some(code), "format-exit", "{shown}\n{code} expected");
            if !check && let Some(want) = want {
                ensure!(got.stdout == want, "stdout", "{shown}\n{:?} expected", String::from_utf8_lossy(&want));
            }
            ctx.label_if(changed == Ok(true), "stdin reformatted");
        }
        ctx.label("standard input");
        ctx.nontrivial(&(&args, &text, &w.config));
        ctx.sample(shown);
        return Ok(());
    }
    let mut found: BTreeSet<String> = BTreeSet::new();
    let (mut missing, mut skipped) = (0, 0);
    match src.weighted(&[2, 1, 1, 4]) {
        0 => found.extend(below("")),
        1 => {
            args.push(".".into());
            found.extend(below(""));
        }
        2 => {
            let d = *src.pick(&["sub", "empty", "sub/deep"]);
            args.push(d.into());
            found.extend(below(&format!("{d}/")));
        }
        _ => {
            let mut names = NAMES.to_vec();
            src.shuffle(&mut names);
            for n in &names[..src.usize(1, 5)] {
                args.push(n.to_string());
                if !w.files.contains_key(n) {
                    missing += 1;
                } else if skipped_name(n) {
                    skipped += 1;
                } else {
                    found.insert(n.to_string());
                }
            }
        }
    }
    found.retain(|f| !skipped_name(f));
    ctx.attach("arguments", &format!("{args:?}"));
    let got = run(&dir, &args, None);
    let after = snapshot(&dir);
    let shown = format!("{args:?} exits with {:?}\nstdout: {:?}\nstderr: {}", got.code, String::from_utf8_lossy(&got.stdout), got.stderr);
    ensure!(got.stdout.is_empty(), "stdout", "{shown}");
    let mut want = before.clone();
    let Some(lib) = library else {
        ensure!(got.code == Some(1), "broken-config", "{shown}\nthe configuration is broken");
        ensure!(after == before, "broken-config-touches", "{shown}\na file changed");
        return Ok(());
    };
    let (mut changed, mut same, mut errors) = (0, 0, missing);
    for f in &found {
        let text = &before[f].0;
        let path = dir.join(f);
        if lint {
            let (e, any) = lib.lint(ctx, Some(&path), text);
            if e || strict && any {
                errors += 1;
            } else {
                same += 1;
            }
        } else {
            match lib.format(ctx, Some(&path), text) {
                Formatted::Error => errors += 1,
                Formatted::Text(t) if t.as_bytes() != text => {
                    if check {
                        errors += 1;
                    } else {
                        changed += 1;
                        want.get_mut(f).unwrap().0 = t.into_bytes();
                    }
                }
                _ => same += 1,
            }
        }
    }
    for (f, (text, time)) in &want {
        let Some(got) = after.get(f) else { return fail("removed", format!("{shown}\n{f} is gone")) };
        ensure!(got.0 == *text, "content", "{shown}\n{f} is now {:?}, not {:?}", String::from_utf8_lossy(&got.0), String::from_utf8_lossy(text));
        ensure!(got.1 == *time || *text != before[f].0, "touched", "{shown}\n{f} was written though it did not change");
    }
    ensure!(after.len() == want.len(), "new-file", "{shown}\nfiles: {:?}", after.keys().collect::<Vec<_>>());
    ensure!(got.code == Some((errors > 0) as i32), if lint { "lint-exit" } else { "format-exit" }, "{shown}\n{errors} files should fail");
    let mut report = if lint {
        let mut r = lines(same, "linted successfully", "linted successfully");
        r.extend(lines(skipped, "skipped", "skipped"));
        r.extend(lines(errors, "failed to be linted", "failed to be linted"));
        r
    } else {
        let mut r = lines(changed, "formatted", "formatted");
        r.extend(lines(same, "did not need formatting", "did not need formatting"));
        r.extend(lines(skipped, "skipped", "skipped"));
        r.extend(lines(errors, "failed to be formatted", "failed to be formatted"));
        r
    };
    if quiet {
        report.clear();
    } else if report.is_empty() {
        report.push(format!("No files {}", if lint { "linted" } else { "formatted" }));
    }
    let said: Vec<&str> = got.stderr.lines().map(|l| l.trim_start_matches("\u{1b}[0m")).filter(|l| ["formatted", "linted", "skipped", "linted successfully", "did not need formatting"].iter().any(|e| l.ends_with(e)) && (l.starts_with("No files") || l.split(' ').nth(1).is_some_and(|w| w.starts_with("file")))).collect();
    ensure!(said == report, "report", "{shown}\n{report:?} expected");
    ctx.label_if(changed > 0, "rewritten");
    ctx.label_if(errors > 0, "failed");
    ctx.label_if(skipped > 0, "skipped");
    if found.len() + missing > 1 {
        ctx.nontrivial(&(&args, &w.files, &w.config));
    }
    ctx.sample(shown);
    Ok(())
}
fn c27_probe(j: &serde_json::Value, ctx: &mut Ctx) -> CaseResult {
    let dir = ctx.scratch.join("cli");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("tombi.toml"), j["config"].as_str().unwrap()).unwrap();
    let args: Vec<String> = j["args"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().into()).collect();
    let got = run(&dir, &args, j["stdin"].as_str().map(|s| s.as_bytes()));
    let out = String::from_utf8_lossy(&got.stdout).into_owned();
    ensure!(Some(out.as_str()) == j["stdout"].as_str(), "stdout", "{args:?} prints {out:?}");
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "standard input, or more than one file; distinct by arguments, files and configuration",
        assumptions: &["nothing else writes the files meanwhile", "no file is named twice"],
        streams: vec![Stream { name: "runs", quick: 1_200, thorough: 60_000, case: c27_cli }],
        probe: Some(c27_probe),
        min_nontrivial: 400,
    }]
}
