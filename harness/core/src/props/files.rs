//! C28: which files a search finds.
use super::config::{glob, pattern};
use crate::engine::*;
use crate::ensure;
use serde_json::Value as S;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

const SEGS: [&str; 5] = ["a", "b", "src", "deep", ".x"];
const NAMES: [&str; 8] = ["a.toml", "b.toml", "Cargo.toml", "x.lock", ".h.toml", "ab.toml", "c.TOML", "a b.toml"];
const VCS: [&str; 6] = [".git", ".hg", ".svn", ".bzr", ".jj", ".sl"];
static CWD: Mutex<()> = Mutex::new(());

/// relative path -> text
type Tree = BTreeMap<String, String>;
fn dirs(src: &mut Src) -> Vec<String> {
    let mut out = vec![String::new()];
    for _ in 0..src.usize(1, 5) {
        let base = src.pick(&out).clone();
        let name = if src.chance(1, 12) { *src.pick(&VCS[1..]) } else { *src.pick(&SEGS) };
        let d = format!("{base}{name}/");
        if d.split('/').count() <= 5 && !out.contains(&d) {
            out.push(d);
        }
    }
    out
}
fn ignore_text(src: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..src.usize(1, 3) {
        let f = *src.pick(&NAMES[..6]);
        let d = *src.pick(&SEGS);
        let mut l = match src.below(11) {
            0 => f.to_string(),
            1 => format!("/{f}"),
            2 => format!("{d}/"),
            3 => d.to_string(),
            4 => format!("/{d}"),
            5 => "*.toml".into(),
            6 => format!("{d}/{f}"),
            7 => format!("**/{f}"),
            8 => format!("{d}/*"),
            9 => format!("?{}", &f[1..]),
            _ => format!("{d}/**/{f}"),
        };
        if src.chance(1, 4) {
            l.insert(0, '!');
        }
        if src.chance(1, 8) {
            l = format!("# {l}");
        }
        t += &l;
        t += "\n";
        if src.chance(1, 8) {
            t += "\n";
        }
    }
    t
}
/// What one ignore file in `dir` says about `rel`
fn verdict(text: &str, dir: &str, rel: &str, is_dir: bool) -> Option<bool> {
    let below = rel.strip_prefix(dir)?;
    let mut out = None;
    for l in text.lines() {
        let l = l.trim_end();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let (l, ignore) = match l.strip_prefix('!') {
            Some(l) => (l, false),
            None => (l, true),
        };
        let (l, only_dir) = match l.strip_suffix('/') {
            Some(l) => (l, true),
            None => (l, false),
        };
        if only_dir && !is_dir {
            continue;
        }
        let hit = match l.strip_prefix('/') {
            Some(l) => glob(l, below),
            None if l.contains('/') => glob(l, below),
            None => glob(l, below.rsplit('/').next().unwrap()),
        };
        if hit {
            out = Some(ignore);
        }
    }
    out
}
/// Whether the ignore files of the tree hide the file from a search that starts in `root`.
/// `o11`: as the finding O11 has it, ignore files above the root see every entry right in the root.
fn ignored(tree: &Tree, root: &str, rel: &str, git: bool, o11: bool) -> bool {
    let below = &rel[root.len()..];
    let ends: Vec<usize> = below.match_indices('/').map(|(i, _)| root.len() + i).chain([rel.len()]).collect();
    for end in ends {
        let (p, is_dir) = (&rel[..end], end < rel.len());
        // the directories above, deepest first
        let mut above: Vec<&str> = p.match_indices('/').map(|(i, _)| &p[..i + 1]).collect();
        above.insert(0, "");
        above.reverse();
        let moved = format!("{root}{}", p.rsplit('/').next().unwrap());
        let seen = |d: &str| if o11 && d.len() < root.len() { moved.as_str() } else { p };
        let says = |name: &str| above.iter().find_map(|d| verdict(tree.get(&format!("{d}{name}"))?, d, seen(d), is_dir));
        let v = says(".ignore").or_else(|| if git { says(".gitignore") } else { None }).or_else(|| if git { verdict(tree.get(".git/info/exclude")?, "", seen(""), is_dir) } else { None });
        if v == Some(true) {
            return true;
        }
    }
    false
}
struct World {
    tree: Tree,
    git: bool,
    base: PathBuf,
    include: Option<Vec<String>>,
    exclude: Option<Vec<String>>,
    respect: bool,
    links: Vec<String>,
}
impl World {
    fn generate(src: &mut Src, ctx: &mut Ctx) -> World {
        static USER: std::sync::Once = std::sync::Once::new();
        USER.call_once(|| {
            // what the user's git ignores everywhere is not one of the files to respect
            if let Some(home) = std::env::var_os("XDG_CONFIG_HOME") {
                let git = PathBuf::from(home).join("git");
                let _ = std::fs::create_dir_all(&git);
                let _ = std::fs::write(git.join("ignore"), "b.toml\nab.toml\n");
            }
        });
        let base = ctx.scratch.join("files");
        let _ = std::fs::remove_dir_all(&base);
        let mut tree = Tree::new();
        let dirs = dirs(src);
        let git = src.chance(2, 3);
        let ignores = src.chance(2, 3);
        for d in &dirs {
            for _ in 0..src.usize(0, 4) {
                tree.insert(format!("{d}{}", src.pick(&NAMES)), "a = 1\n".into());
            }
            if ignores && src.chance(1, 2) && !d.split('/').any(|s| VCS.contains(&s)) {
                tree.insert(format!("{d}{}", src.pick(&[".gitignore", ".ignore"])), ignore_text(src));
            }
        }
        if git {
            tree.insert(".git/HEAD".into(), "ref: refs/heads/main\n".into());
            tree.insert(".git/config.toml".into(), "a = 1\n".into());
            if src.chance(1, 3) {
                tree.insert(".git/info/exclude".into(), ignore_text(src));
            }
        }
        if src.chance(1, 8) {
            // a file, not a directory, with such a name
            tree.insert("a/.hg".into(), "a = 1\n".into());
        }
        let mut pats = |src: &mut Src, n: usize| -> Vec<String> {
            (0..n)
                .map(|_| {
                    let rel = src.pick(&tree.keys().cloned().collect::<Vec<_>>().into_iter().chain(["a/a.toml".to_string()]).collect::<Vec<_>>()).clone();
                    pattern(src, &rel, "/none")
                })
                .collect()
        };
        let n = src.usize(1, 3);
        let include = match src.below(4) {
            0 => None,
            1 => Some(vec!["**/*.toml".to_string()]),
            _ => Some(pats(src, n)),
        };
        let n = src.usize(1, 2);
        let exclude = if src.bool() { Some(pats(src, n)) } else { None };
        let w = World { tree, git, base, include, exclude, respect: !src.chance(1, 3), links: vec![] };
        for (f, t) in &w.tree {
            let p = w.base.join(f);
            // a name may be both a file and a directory
            if std::fs::create_dir_all(p.parent().unwrap()).is_ok() && !p.is_dir() {
                std::fs::write(&p, t).unwrap();
            }
        }
        std::fs::create_dir_all(&w.base).unwrap();
        for d in &dirs {
            let _ = std::fs::create_dir_all(w.base.join(d));
        }
        let mut w = w;
        w.tree.retain(|f, _| w.base.join(f).is_file());
        if src.chance(1, 8) {
            // a link to a directory is not followed
            let at = w.base.join("link");
            if std::os::unix::fs::symlink("src", &at).is_ok() {
                w.links.push("link -> src".into());
            }
        }
        ctx.attach("tree", &format!("{}\n{:?}", w.tree.iter().map(|(f, t)| if f.contains("ignore") || f.contains("exclude") { format!("{f}: {t:?}") } else { f.clone() }).collect::<Vec<_>>().join("\n"), w.links));
        ctx.attach("options", &format!("include {:?} exclude {:?} respect-ignore-files {}", w.include, w.exclude, w.respect));
        w
    }
    fn matches(&self, rel: &str) -> bool {
        let any = |l: &[String]| l.iter().any(|p| glob(p, rel));
        self.include.as_deref().is_none_or(any) && !self.exclude.as_deref().is_some_and(any)
    }
    /// What a search from the directory `root` ("" or "a/") finds
    fn found(&self, root: &str, include: Option<&str>) -> BTreeSet<String> {
        self.found_as(root, include, false)
    }
    fn found_as(&self, root: &str, include: Option<&str>, o11: bool) -> BTreeSet<String> {
        self.tree
            .keys()
            .filter(|f| f.starts_with(root))
            .filter(|f| {
                let below = &f[root.len()..];
                let mut segs: Vec<&str> = below.split('/').collect();
                segs.pop();
                let by_pattern = match include {
                    Some(p) => glob(p, below) && !self.exclude.as_deref().is_some_and(|l| l.iter().any(|p| glob(p, below))),
                    None => self.matches(below),
                };
                by_pattern && !segs.iter().any(|s| VCS.contains(s)) && !(self.respect && ignored(&self.tree, root, f, self.git, o11))
            })
            .cloned()
            .collect()
    }
    fn options(&self) -> tombi_config::FilesOptions {
        let g = |l: &Option<Vec<String>>| l.as_ref().map(|l| l.iter().map(|p| p.as_str().into()).collect());
        tombi_config::FilesOptions { include: g(&self.include), exclude: g(&self.exclude), respect_ignore_files: self.respect.into() }
    }
}
fn same(got: &BTreeSet<String>, want: &BTreeSet<String>) -> CaseResult {
    let missing: Vec<_> = want.difference(got).collect();
    let more: Vec<_> = got.difference(want).collect();
    ensure!(missing.is_empty(), "missing", "not found: {missing:?}\nfound: {got:?}");
    ensure!(more.is_empty(), "too-many", "found although it should not be: {more:?}");
    Ok(())
}
fn rel(base: &Path, p: &Path) -> String {
    p.strip_prefix(base).unwrap_or(p).to_string_lossy().into_owned()
}
fn c28_walk(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let w = World::generate(src, ctx);
    // from the top, or from a directory below it
    let mut all: Vec<String> = w.tree.keys().filter_map(|f| Some(format!("{}/", f.rsplit_once('/')?.0))).collect();
    all.dedup();
    let root = if src.chance(1, 4) && !all.is_empty() { src.pick(&all).clone() } else { String::new() };
    let root_is_vcs = root.trim_end_matches('/').rsplit('/').next().is_some_and(|s| VCS.contains(&s));
    ctx.attach("root", &root);
    let want = if root_is_vcs { Default::default() } else { w.found(&root, None) };
    let got = match ctx.block_on(tombi_glob::WalkDir::new_with_options(w.base.join(&root), w.options()).walk()) {
        Ok(g) => g,
        Err(e) => return fail("error", format!("{e}")),
    };
    let n = got.len();
    let got: BTreeSet<String> = got.iter().map(|p| rel(&w.base, p)).collect();
    ensure!(n == got.len(), "twice", "found a file more than once: {got:?}");
    note(&w, &want, ctx);
    let as_o11 = got != want && !root_is_vcs && got == w.found_as(&root, None, true);
    ensure!(!as_o11, "ignore-file-above", "ignore files above the directory are read as if {got:?} were right in it; {want:?} should be found");
    same(&got, &want)?;
    // the language server judges single files by the same patterns
    let mut config = tombi_config::Config::default();
    config.files = Some(w.options());
    let at = w.base.join("tombi.toml");
    std::fs::write(&at, "").unwrap();
    for f in w.tree.keys() {
        use tombi_glob::MatchResult as M;
        let got = tombi_glob::matches_file_patterns(&w.base.join(f), Some(&at), &config);
        let any = |l: &Option<Vec<String>>| l.as_ref().map(|l| l.iter().any(|p| glob(p, f)));
        let want = if any(&w.include) == Some(false) {
            M::IncludeNotMatched
        } else if any(&w.exclude) == Some(true) {
            M::ExcludeMatched
        } else {
            M::Matched
        };
        ensure!(got == want, "single", "{f}: {got:?}, not {want:?}");
    }
    Ok(())
}
fn note(w: &World, want: &BTreeSet<String>, ctx: &mut Ctx) {
    let shape = format!("{:?}{:?}{:?}{}", w.tree, w.include, w.exclude, w.respect);
    if !want.is_empty() && want.len() < w.tree.len() {
        ctx.nontrivial(&shape);
    }
    ctx.label_if(w.respect && w.tree.keys().any(|f| ignored(&w.tree, "", f, w.git, false)), "ignored");
    ctx.label_if(w.tree.keys().any(|f| f.split('/').any(|s| VCS[1..].contains(&s))), "other metadata directory");
    ctx.sample(shape);
}
fn c28_search(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let w = World::generate(src, ctx);
    let (config_path, level) = match src.below(4) {
        0 => (None, tombi_config::ConfigLevel::Default),
        1 => (Some(w.base.join(".config/tombi.toml")), tombi_config::ConfigLevel::Project),
        _ => (Some(w.base.join("tombi.toml")), tombi_config::ConfigLevel::Project),
    };
    // where the command runs: the top, or a directory below when the configuration is at the top
    let mut below: Vec<String> = w.tree.keys().filter(|f| !f.split('/').any(|s| VCS.contains(&s))).filter_map(|f| Some(format!("{}/", f.rsplit_once('/')?.0))).collect();
    below.dedup();
    let cwd = if config_path.is_some() && src.chance(1, 3) && !below.is_empty() { src.pick(&below).clone() } else { String::new() };
    let keys: Vec<&String> = w.tree.keys().collect();
    let mut inputs: Vec<String> = vec![];
    let mut want: BTreeMap<String, char> = BTreeMap::new();
    let mut put = |f: String, k: char| {
        // found by one input is found
        let e = want.entry(f).or_insert(k);
        if k == 'f' {
            *e = 'f';
        }
    };
    let excluded = |f: &str| w.exclude.as_ref().is_some_and(|l| l.iter().any(|p| glob(p, f)));
    let has_ignores = w.tree.keys().any(|f| f.ends_with("ignore") || f.ends_with("exclude"));
    let n = if src.chance(1, 4) || keys.is_empty() { 0 } else { src.usize(1, 3) };
    if n == 0 {
        w.found("", None).into_iter().for_each(|f| put(f, 'f'));
    }
    for _ in 0..n {
        match src.below(5) {
            // a directory; what patterns are relative to then is left open, so they must hold from anywhere
            0 => {
                let anywhere = |l: &Option<Vec<String>>| l.iter().flatten().all(|p| p.starts_with("**/"));
                let d = if src.bool() || below.is_empty() { String::new() } else { src.pick(&below).clone() };
                if !d.starts_with(&cwd) || (!d.is_empty() && (!anywhere(&w.include) || !anywhere(&w.exclude) || (w.respect && has_ignores))) {
                    continue;
                }
                inputs.push(match d.strip_prefix(&cwd).unwrap() {
                    "" if src.bool() => w.base.join(&cwd).to_string_lossy().into_owned(),
                    "" if d.is_empty() => ".".into(),
                    "" => continue,
                    t if src.bool() => t.trim_end_matches('/').into(),
                    t => t.into(),
                });
                w.found(&d, None).into_iter().for_each(|f| put(f, 'f'));
            }
            // a pattern, relative to the directory of the configuration
            1 if cwd.is_empty() => {
                let rel = src.pick(&keys).to_string();
                let p = if src.chance(1, 4) {
                    // one letter of a path left open
                    let at = src.usize(0, rel.chars().count() - 1);
                    rel.chars().enumerate().map(|(n, c)| if n == at && c != '/' { '?' } else { c }).collect()
                } else {
                    pattern(src, &rel, "/none")
                };
                if !p.contains(['*', '?', '[', ']']) {
                    continue;
                }
                w.found("", Some(&p)).into_iter().for_each(|f| put(f, 'f'));
                inputs.push(p);
            }
            2 => {
                inputs.push("none.toml".into());
                put(format!("{cwd}none.toml"), 'e');
            }
            _ => {
                let f = src.pick(&keys).to_string();
                let Some(t) = f.strip_prefix(&cwd) else { continue };
                inputs.push(match src.below(3) {
                    0 => w.base.join(&f).to_string_lossy().into_owned(),
                    1 => format!("./{t}"),
                    _ => t.into(),
                });
                put(f.clone(), if excluded(&f) { 's' } else { 'f' });
            }
        }
    }
    if n > 0 && inputs.is_empty() {
        return Ok(());
    }
    if n == 0 && !cwd.is_empty() {
        ctx.label("from below");
    }
    ctx.attach("inputs", &format!("in {cwd:?}: {inputs:?}, configuration {config_path:?} {level:?}"));
    note(&w, &want.keys().filter(|f| w.tree.contains_key(*f)).cloned().collect(), ctx);
    let mut config = tombi_config::Config::default();
    config.files = Some(w.options());
    let base = w.base.canonicalize().unwrap();
    let got = {
        let _cwd = CWD.lock().unwrap_or_else(|e| e.into_inner());
        std::env::set_current_dir(base.join(&cwd)).unwrap();
        let s = ctx.block_on(tombi_glob::FileSearch::new(&inputs, &config, config_path.as_deref(), level));
        std::env::set_current_dir("/").unwrap();
        s
    };
    let tombi_glob::FileSearch::Files(got) = got else { return fail("stdin", "not a search of files") };
    let mut have: BTreeMap<String, char> = BTreeMap::new();
    for e in &got {
        use tombi_glob::FileSearchEntry as E;
        let (p, k) = match e {
            E::Found(p) => (p, 'f'),
            E::Skipped(p) => (p, 's'),
            E::Error(tombi_glob::Error::FileNotFound(p)) => (p, 'e'),
            E::Error(e) => return fail("error", format!("{e}")),
        };
        // without a configuration paths are relative to the working directory
        let p = if p.is_absolute() { p.clone() } else { base.join(&cwd).join(p) };
        let mut clean = PathBuf::new();
        p.components().filter(|c| *c != std::path::Component::CurDir).for_each(|c| clean.push(c));
        let e = have.entry(rel(&base, &clean)).or_insert(k);
        if k == 'f' {
            *e = 'f';
        }
    }
    let of = |m: &BTreeMap<String, char>, k: char| m.iter().filter(|(_, v)| **v == k).map(|(f, _)| f.clone()).collect::<BTreeSet<_>>();
    same(&of(&have, 'f'), &of(&want, 'f'))?;
    for (k, sig) in [('s', "skipped"), ('e', "not-found")] {
        ensure!(of(&have, k) == of(&want, k), sig, "{:?}, not {:?}", of(&have, k), of(&want, k));
    }
    Ok(())
}
fn c28_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let base = ctx.scratch.join("files");
    let _ = std::fs::remove_dir_all(&base);
    if let Some(tree) = j["tree"].as_object() {
        for (f, text) in tree {
            let p = base.join(f);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, text.as_str().unwrap()).unwrap();
        }
        let got = ctx.block_on(tombi_glob::WalkDir::new(base.join(j["root"].as_str().unwrap())).walk());
        let got: BTreeSet<String> = got.unwrap_or_default().iter().map(|p| rel(&base, p)).collect();
        let want: BTreeSet<String> = j["found"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().into()).collect();
        ensure!(got == want, "ignore-file-above", "{got:?}, not {want:?}");
        return Ok(());
    }
    for f in j["files"].as_array().unwrap() {
        let p = base.join(f.as_str().unwrap());
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, "a = 1\n").unwrap();
    }
    let list = |k: &str| -> Vec<String> { j[k].as_array().map(|l| l.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
    let mut config = tombi_config::Config::default();
    config.files = Some(tombi_config::FilesOptions { exclude: Some(list("exclude").iter().map(|p| p.as_str().into()).collect()), ..Default::default() });
    let base = base.canonicalize().unwrap();
    let got = {
        let _cwd = CWD.lock().unwrap_or_else(|e| e.into_inner());
        std::env::set_current_dir(base.join(j["cwd"].as_str().unwrap())).unwrap();
        let s = ctx.block_on(tombi_glob::FileSearch::new(&list("inputs"), &config, Some(&base.join("tombi.toml")), tombi_config::ConfigLevel::Project));
        std::env::set_current_dir("/").unwrap();
        s
    };
    let tombi_glob::FileSearch::Files(got) = got else { return fail("stdin", "not a search of files") };
    let n = got.iter().filter(|e| matches!(e, tombi_glob::FileSearchEntry::Found(_))).count() as u64;
    ensure!(n == j["found"].as_u64().unwrap(), "too-many", "{got:?}");
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "some but not all files of the tree are found; distinct by tree and options",
        assumptions: &["links are not followed", "git's rules for ignore files"],
        streams: vec![
            Stream { name: "walk", quick: 4_000, thorough: 400_000, case: c28_walk },
            Stream { name: "search", quick: 4_000, thorough: 400_000, case: c28_search },
        ],
        probe: Some(c28_probe),
        min_nontrivial: 300,
    }]
}
