//! C14: which configuration applies to a file.
use crate::engine::*;
use crate::ensure;
use serde_json::{Map, Value as S, json};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use tombi_config::ConfigLevel;

// ---------------------------------------------------------------- reference glob matcher
/// `*` and `?` stay within a segment, `**` is any number of segments, `[ab]` is one of the characters
pub fn glob(pat: &str, path: &str) -> bool {
    fn seg(p: &[char], s: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('*') => (0..=s.len()).any(|i| seg(&p[1..], &s[i..])),
            Some('?') => !s.is_empty() && seg(&p[1..], &s[1..]),
            Some('[') => {
                let end = p.iter().position(|c| *c == ']').unwrap();
                let neg = p[1] == '!';
                !s.is_empty() && (p[1 + neg as usize..end].contains(&s[0]) != neg) && seg(&p[end + 1..], &s[1..])
            }
            Some(c) => s.first() == Some(c) && seg(&p[1..], &s[1..]),
        }
    }
    fn segs(p: &[&str], s: &[&str]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some(&"**") if p.len() == 1 => !s.is_empty(),
            Some(&"**") => (0..=s.len()).any(|i| segs(&p[1..], &s[i..])),
            Some(x) => {
                !s.is_empty()
                    && seg(&x.chars().collect::<Vec<_>>(), &s[0].chars().collect::<Vec<_>>())
                    && segs(&p[1..], &s[1..])
            }
        }
    }
    segs(&pat.split('/').collect::<Vec<_>>(), &path.split('/').collect::<Vec<_>>())
}

// ---------------------------------------------------------------- discovery
static HOME: Mutex<()> = Mutex::new(());

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Absent,
    Valid,
    /// no settings at all: a configuration, but not in pyproject.toml
    Empty,
    Syntax,
    Unknown,
    WrongType,
    NotUtf8,
    Directory,
    Dangling,
    Symlink,
    /// pyproject.toml only
    OtherTool,
    NoTable,
}
use Kind::*;
const NAMES: [&str; 4] = [".tombi.toml", "tombi.toml", ".config/tombi.toml", "pyproject.toml"];

fn marker(pyproject: bool, n: usize, style: u32) -> String {
    if pyproject {
        match style {
            0 => format!("[tool.tombi.format.rules]\nline-width = {n}\n"),
            1 => format!("[project]\nname = \"x\"\n[tool]\ntombi = {{ format.rules.line-width = {n} }}\n"),
            2 => format!("[tool.other]\nline-width = 9\n[tool.tombi]\nformat = {{ rules = {{ line-width = {n} }} }}\n"),
            _ => format!("tool.\"tombi\".format.rules.line-width = {n}\n"),
        }
    } else {
        match style {
            0 => format!("[format.rules]\nline-width = {n}\n"),
            1 => format!("format.rules.line-width = {n} # here\n"),
            2 => format!("format = {{\n  rules = {{ line-width = {n} }},\n}}\n"), // configurations are v1.1.0
            _ => format!("# top\n[format]\n'rules'.\"line-width\" = {n}\n"),
        }
    }
}
fn broken(pyproject: bool, k: Kind) -> String {
    let pre = if pyproject { "[tool.tombi]\n" } else { "" };
    match k {
        Syntax => format!("{pre}format.rules.line-width = \n"),
        Unknown => format!("{pre}format.rules.line-widht = 3\n"),
        WrongType => format!("{pre}format.rules.line-width = \"wide\"\n"),
        _ => unreachable!(),
    }
}
fn c14_discovery(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let _guard = HOME.lock().unwrap_or_else(|e| e.into_inner());
    let user = user_dirs();
    for d in [&user.0, &user.1] {
        let _ = std::fs::remove_dir_all(d);
    }
    let root = ctx.scratch.join("c14");
    let _ = std::fs::remove_dir_all(&root);
    let depth = src.usize(0, 3);
    let names = ["a", "b c", ".config", "tombi"];
    let mut dirs = vec![root.clone()];
    for _ in 0..depth {
        let d = dirs.last().unwrap().join(*src.pick(&names));
        dirs.push(d);
    }
    std::fs::create_dir_all(dirs.last().unwrap()).unwrap();
    let mut layout = vec![];
    let mut marks = 0;
    let mut written: std::collections::BTreeMap<PathBuf, Option<Option<usize>>> = Default::default();
    for d in dirs.iter().rev() {
        // what other tools take for the top of a project
        for other in [".git/HEAD", ".hg/x", "Cargo.toml", "package.json", ".editorconfig"] {
            if src.chance(1, 8) {
                let p = d.join(other);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, "").unwrap();
            }
        }
        for name in NAMES {
            let path = d.join(name);
            if written.contains_key(&path) {
                continue;
            }
            let py = name == "pyproject.toml";
            let mut k = [Absent, Valid, Empty, Syntax, Unknown, WrongType, NotUtf8, Directory, Dangling, Symlink][src.weighted(&[16, 5, 1, 2, 1, 1, 1, 1, 1, 1])];
            if py && k == Absent {
                k = [Absent, OtherTool, NoTable][src.weighted(&[4, 2, 1])];
            }
            if k == Absent {
                continue;
            }
            // a file of an inner directory may lie in the way (.config as a directory of the chain)
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            let mut mark = None;
            let mut text = String::new();
            match k {
                Valid | Symlink => {
                    marks += 1;
                    mark = Some(100 + marks);
                    text = marker(py, 100 + marks, src.below(4));
                    if k == Valid {
                        std::fs::write(&path, &text).unwrap();
                    } else {
                        let t = d.join(format!("{}.target", name.replace('/', "_")));
                        std::fs::write(&t, &text).unwrap();
                        std::os::unix::fs::symlink(&t, &path).unwrap();
                    }
                }
                Empty => std::fs::write(&path, "").unwrap(),
                Syntax | Unknown | WrongType => {
                    text = broken(py, k);
                    std::fs::write(&path, &text).unwrap();
                }
                NotUtf8 => std::fs::write(&path, b"# \xff\n").unwrap(),
                Directory => std::fs::create_dir(&path).unwrap(),
                Dangling => std::os::unix::fs::symlink(d.join("nowhere"), &path).unwrap(),
                OtherTool => std::fs::write(&path, "[tool.other]\nformat.rules.line-width = 9\n[tombi]\nx = 1\n").unwrap(),
                NoTable => std::fs::write(&path, "[project]\nname = \"tombi\"\ntool = { tombi = 1 }\n").unwrap(),
                Absent => {}
            }
            layout.push(format!("{} ({k:?})\n{text}", path.strip_prefix(&root).unwrap().display()));
            written.insert(path, matches!((k, py), (Valid | Symlink, _) | (Empty, false)).then_some(mark));
        }
    }
    // nearest directory first
    let mut want: Option<(PathBuf, Option<usize>, ConfigLevel)> = dirs.iter().rev().flat_map(|d| NAMES.map(|n| d.join(n))).find_map(|p| {
        let mark = (*written.get(&p)?)?;
        Some((p, mark, ConfigLevel::Project))
    });
    // user level
    let mut either = false;
    for (i, d) in [user.0.join("tombi"), user.1.join(".config/tombi")].into_iter().enumerate() {
        let k = [Absent, Valid, Empty, Syntax, Unknown][src.weighted(&[6, 3, 1, 1, 1])];
        if k == Absent {
            continue;
        }
        std::fs::create_dir_all(&d).unwrap();
        let path = d.join("config.toml");
        let mut text = String::new();
        match k {
            Valid => {
                marks += 1;
                text = marker(false, 100 + marks, src.below(4));
            }
            Empty => {}
            _ => text = broken(false, k),
        }
        std::fs::write(&path, &text).unwrap();
        layout.push(format!("{} ({k:?})\n{text}", ["$XDG_CONFIG_HOME/tombi/config.toml", "~/.config/tombi/config.toml"][i]));
        match k {
            _ if want.is_some() => {}
            Valid | Empty => want = Some((path, (k == Valid).then_some(100 + marks), ConfigLevel::User)),
            _ => either = true, // whether a broken user configuration lets the next one apply is left open
        }
    }
    let layout = layout.join("\n");
    ctx.attach("layout.txt", &format!("search from: {}\n\n{layout}", dirs.last().unwrap().strip_prefix(&root).unwrap().display()));
    ctx.label(match &want {
        None => "default",
        Some((_, _, ConfigLevel::User)) => "user",
        _ => "project",
    });
    if layout.lines().filter(|l| l.ends_with(')')).count() > 1 {
        ctx.nontrivial(&layout);
    }
    ctx.sample(&layout);
    let got = serde_tombi::config::load_with_path_and_level(Some(dirs.last().unwrap().clone()));
    let _ = std::fs::remove_dir_all(&root);
    let (config, path, level) = match got {
        Ok(x) => x,
        Err(e) => return fail("failed", format!("looking for a configuration failed: {e}")),
    };
    let show = |p: &Option<PathBuf>| p.as_ref().map_or("none".into(), |p| p.to_string_lossy().into_owned());
    if path.is_none() && either && want.as_ref().is_none_or(|w| w.2 == ConfigLevel::User) {
        return Ok(());
    }
    let want_path = want.as_ref().map(|w| w.0.clone());
    ensure!(path == want_path, "path", "the configuration is taken from {}, not from {}", show(&path), show(&want_path));
    let want_level = want.as_ref().map_or(ConfigLevel::Default, |w| w.2);
    ensure!(level == want_level, "level", "the level is {level:?}, not {want_level:?}");
    let mark = want.and_then(|w| w.1);
    let width = config.format.as_ref().and_then(|f| f.rules.as_ref()).and_then(|r| r.line_width).map(|w| w.value() as usize);
    ensure!(width == mark, "content", "line-width is {width:?}, the configuration at {} says {mark:?}", show(&path));
    Ok(())
}
/// set once when the process starts: $XDG_CONFIG_HOME and $HOME
fn user_dirs() -> (PathBuf, PathBuf) {
    (std::env::var_os("XDG_CONFIG_HOME").unwrap().into(), std::env::var_os("HOME").unwrap().into())
}

// ---------------------------------------------------------------- overrides
/// every rule with three values other than the default where there are so many
const FORMAT: [(&str, &[&str]); 20] = [
    ("array-bracket-space-width", &["0", "1", "2"]),
    ("array-comma-space-width", &["1", "0", "2"]),
    ("comment-style", &["\"normalize\"", "\"preserve\""]),
    ("date-time-delimiter", &["\"T\"", "\"space\"", "\"preserve\""]),
    ("group-blank-lines-limit", &["1", "2", "3"]),
    ("indent-style", &["\"space\"", "\"tab\""]),
    ("indent-sub-tables", &["false", "true"]),
    ("indent-table-key-value-pairs", &["false", "true"]),
    ("indent-width", &["2", "4", "8"]),
    ("inline-table-brace-space-width", &["1", "0", "2"]),
    ("inline-table-comma-space-width", &["1", "0", "2"]),
    ("key-value-equals-sign-alignment", &["false", "true"]),
    ("key-quote-style", &["\"double\"", "\"single\"", "\"preserve\""]),
    ("string-quote-style", &["\"double\"", "\"single\"", "\"preserve\""]),
    ("trailing-comment-alignment", &["false", "true"]),
    ("key-value-equals-sign-space-width", &["1", "0", "2"]),
    ("line-ending", &["\"auto\"", "\"lf\"", "\"crlf\""]),
    ("line-width", &["80", "100", "120"]),
    ("table-blank-lines", &["1", "0", "2"]),
    ("trailing-comment-space-width", &["2", "1", "4"]),
];
const LINT: [&str; 3] = ["key-empty", "dotted-keys-out-of-order", "tables-out-of-order"];
const LEVELS: [&str; 3] = ["\"warn\"", "\"error\"", "\"off\""];

fn rules(src: &mut Src, lint: bool, num: u32, den: u32) -> Map<String, S> {
    let mut m = Map::new();
    if lint {
        for n in LINT {
            if src.chance(num, den) {
                m.insert(n.into(), serde_json::from_str(src.pick(&LEVELS)).unwrap());
            }
        }
    } else {
        for (n, v) in FORMAT {
            if src.chance(num, den) {
                m.insert(n.into(), serde_json::from_str(src.pick(v)).unwrap());
            }
        }
    }
    m
}
fn toml_rules(m: &Map<String, S>, prefix: &str, out: &mut String) {
    for (k, v) in m {
        out.push_str(&format!("{prefix}.{k} = {v}\n"));
    }
}
const SEGS: [&str; 5] = ["a", "b", "src", "deep", ".x"];
const FILES: [&str; 6] = ["a.toml", "b.toml", "Cargo.toml", "x.lock", ".h.toml", "ab.toml"];
pub fn pattern(src: &mut Src, rel: &str, abs: &str) -> String {
    let segs: Vec<&str> = rel.split('/').collect();
    let file = *segs.last().unwrap();
    match src.below(14) {
        0 => rel.into(),
        1 => "**/*.toml".into(),
        2 => "*.toml".into(),
        3 => format!("**/{file}"),
        4 => format!("{}/**", src.pick(&SEGS)),
        5 => format!("{}/**/*.toml", segs[0]),
        6 => format!("**/{}/*", src.pick(&SEGS)),
        7 => "**/[!a].toml".into(),
        8 => "**/[ab].toml".into(),
        9 => format!("*/{file}"),
        10 => format!("**/?{}", &file[1..]),
        11 => abs.into(),
        12 => format!("{}/*.toml", src.pick(&SEGS)),
        _ => (*src.pick(&FILES)).into(),
    }
}
struct Over {
    include: Vec<String>,
    exclude: Option<Vec<String>>,
    /// per tool: is there a table, enabled, rules
    tools: [Option<(Option<bool>, Option<Map<String, S>>)>; 2],
}
fn c14_overrides(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut rel: Vec<&str> = vec![];
    for _ in 0..src.below(4) {
        rel.push(*src.pick(&SEGS));
    }
    rel.push(*src.pick(&FILES));
    let rel = rel.join("/");
    // the configuration: /vt-none/p/{tombi.toml,.config/tombi.toml,pyproject.toml} or none
    let (config_path, base): (Option<&str>, &str) = match src.weighted(&[5, 2, 2, 1, 1, 1]) {
        0 => (Some("/vt-none/p/tombi.toml"), "/vt-none/p/"),
        1 => (Some("/vt-none/p/.config/tombi.toml"), "/vt-none/p/"),
        2 => (Some("/vt-none/p/pyproject.toml"), "/vt-none/p/"),
        3 => (Some("/vt-none/p/.config/config.toml"), "/vt-none/p/.config/"),
        4 => (None, "/nowhere/"),
        _ => (Some("/vt-none/p/q/.tombi.toml"), "/vt-none/p/q/"),
    };
    let abs = format!("/vt-none/p/{}{rel}", if src.chance(1, 6) { "q/" } else { "" });
    let for_patterns = abs.strip_prefix(base).unwrap_or(&abs).to_string();
    let base_rules = [rules(src, false, 1, 3), rules(src, true, 1, 2)];
    let n = src.usize(0, 4);
    let mut overs = vec![];
    for _ in 0..n {
        let include = (0..src.usize(1, 2)).map(|_| pattern(src, &for_patterns, &abs)).collect();
        let exclude = src.chance(1, 3).then(|| (0..src.usize(0, 2)).map(|_| pattern(src, &for_patterns, &abs)).collect());
        let tools = [false, true].map(|lint| {
            src.chance(3, 4).then(|| {
                let enabled = [None, Some(true), Some(false)][src.weighted(&[6, 1, 1])];
                (enabled, src.chance(5, 6).then(|| rules(src, lint, 1, 3)))
            })
        });
        overs.push(Over { include, exclude, tools });
    }
    let mut text = String::new();
    toml_rules(&base_rules[0], "format.rules", &mut text);
    toml_rules(&base_rules[1], "lint.rules", &mut text);
    for o in &overs {
        text.push_str(&format!("[[overrides]]\nfiles.include = {}\n", json!(o.include)));
        if let Some(e) = &o.exclude {
            text.push_str(&format!("files.exclude = {}\n", json!(e)));
        }
        for (tool, name) in o.tools.iter().zip(["format", "lint"]) {
            match tool {
                Some((None, None)) => text.push_str(&format!("{name} = {{}}\n")),
                Some((enabled, r)) => {
                    if let Some(e) = enabled {
                        text.push_str(&format!("{name}.enabled = {e}\n"));
                    }
                    match r {
                        Some(r) if r.is_empty() => text.push_str(&format!("{name}.rules = {{}}\n")),
                        Some(r) => toml_rules(r, &format!("{name}.rules"), &mut text),
                        None => {}
                    }
                }
                None => {}
            }
        }
    }
    let pathless = src.chance(1, 20);
    ctx.attach("tombi.toml", &text);
    ctx.attach("case.txt", &format!("configuration: {config_path:?}\nfile: {}\n", if pathless { "none" } else { &abs }));
    let m = overs.iter().filter(|o| over_matches(o, &for_patterns)).count();
    ctx.label(match m {
        0 => "no match",
        1 => "one match",
        _ => "several match",
    });
    if m > 0 {
        ctx.nontrivial(&format!("{abs} {text}"));
    }
    ctx.sample(&text);
    let config = match serde_tombi::config::from_str(&text, Path::new(config_path.unwrap_or("/tombi.toml"))) {
        Ok(c) => c,
        Err(e) => return fail("rejected", format!("the configuration is rejected: {e}")),
    };
    let config_path = config_path.map(Path::new);
    let path = (!pathless).then(|| Path::new(&abs));
    let first = overs.iter().find(|o| !pathless && over_matches(o, &for_patterns));
    for (i, name) in ["format", "lint"].iter().enumerate() {
        let want: Option<Map<String, S>> = match first.and_then(|o| o.tools[i].as_ref()) {
            Some((Some(false), _)) => None,
            Some((_, Some(r))) => {
                let mut m = base_rules[i].clone();
                for (k, v) in r {
                    m.insert(k.clone(), v.clone());
                }
                Some(m)
            }
            _ => Some(base_rules[i].clone()),
        };
        let got = if i == 0 {
            tombi_glob::get_format_options(&config, path, config_path).map(|o| serde_json::to_value(o).unwrap())
        } else {
            tombi_glob::get_lint_options(&config, path, config_path).map(|o| serde_json::to_value(o).unwrap())
        };
        let got: Option<Map<String, S>> = got.map(|v| {
            let r = v["rules"].as_object().cloned().unwrap_or_default();
            r.into_iter().filter(|(_, v)| !v.is_null()).collect()
        });
        let text = |o: &Option<Map<String, S>>| match o {
            None => "disabled".to_string(),
            Some(m) => {
                let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{k} = {v}")).collect();
                v.sort();
                v.join(", ")
            }
        };
        let (w, g) = (text(&want), text(&got));
        ensure!(w == g, format!("{name}-rules"), "the {name} rules of the file are\n  {g}\nnot\n  {w}");
    }
    Ok(())
}
fn over_matches(o: &Over, path: &str) -> bool {
    o.include.iter().any(|p| glob(p, path)) && !o.exclude.iter().flatten().any(|p| glob(p, path))
}
/// {config, path, format|lint: rules or null} or {user: text}
fn c14_probe(j: &S, _ctx: &mut Ctx) -> CaseResult {
    if let Some(text) = j["user"].as_str() {
        let _guard = HOME.lock().unwrap_or_else(|e| e.into_inner());
        let d = user_dirs().0.join("tombi");
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join("config.toml"), text).unwrap();
        let got = std::panic::catch_unwind(|| serde_tombi::config::load_with_path_and_level(None));
        let _ = std::fs::remove_dir_all(&d);
        ensure!(got.is_ok_and(|r| r.is_ok()), "panic", "a broken user configuration makes the search fail");
        return Ok(());
    }
    let config = serde_tombi::config::from_str(j["config"].as_str().unwrap(), Path::new("/vt-none/tombi.toml")).unwrap();
    let path = PathBuf::from(j["path"].as_str().unwrap());
    let at = Some(Path::new("/vt-none/tombi.toml"));
    let got = [
        tombi_glob::get_format_options(&config, Some(&path), at).map(|o| serde_json::to_value(o).unwrap()),
        tombi_glob::get_lint_options(&config, Some(&path), at).map(|o| serde_json::to_value(o).unwrap()),
    ];
    for (i, n) in ["format", "lint"].iter().enumerate() {
        if let Some(w) = j[*n].as_object() {
            for (k, v) in w {
                let g = got[i].as_ref().map_or(S::Null, |g| g["rules"][k].clone());
                ensure!(g == *v, format!("{n}-rules"), "{n}.rules.{k} is {g}, not {v}");
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C14",
        rule: "a layout with at least two files, or a list of overrides of which one matches; distinct by text",
        assumptions: &["no configuration in the directories above the scratch directory, nor in /etc/tombi"],
        streams: vec![
            Stream { name: "discovery", quick: 10_000, thorough: 500_000, case: c14_discovery },
            Stream { name: "overrides", quick: 40_000, thorough: 4_000_000, case: c14_overrides },
        ],
        probe: Some(c14_probe),
        min_nontrivial: 500,
    }]
}
