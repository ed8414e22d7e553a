//! The code actions of a Cargo workspace: the data of both manifests afterwards, against a model of what an action says.
use crate::srv::*;
use serde_json::Value as S;
use tower_lsp::lsp_types as l;
use vt_core::engine::*;
use vt_core::ensure;
use vt_core::reftoml::{self, Tbl, V, Ver};

const NAMES: [&str; 8] = ["anyhow", "log", "rand", "rand_core", "serde", "serde_json", "tokio", "z1"];
const FIELDS: [(&str, &str); 5] = [("version", "\"1.2.3\""), ("edition", "\"2024\""), ("authors", "[\"é\", \"b\"]"), ("license", "'MIT'"), ("publish", "false")];
const KINDS: [&str; 5] = ["dependencies", "dev-dependencies", "build-dependencies", "target.'cfg(unix)'.dependencies", "target.x.dev-dependencies"];

const HEADS: [&[&str]; 5] = [&["dependencies"], &["dev-dependencies"], &["build-dependencies"], &["target", "cfg(unix)", "dependencies"], &["target", "x", "dev-dependencies"]];

fn version(src: &mut Src) -> String {
    src.pick(&["\"1\"", "\"1.2\"", "'1.0'", "\">=1, <2\"", "\"=1.0.0-é.1\"", "\"\"\"1\"\"\"", "\"\\u0031.1\"", "'''2'''"]).to_string()
}
/// The fields of a dependency, without the version
fn extra(src: &mut Src, root: bool) -> Vec<String> {
    let mut v = vec![];
    if src.chance(1, 2) {
        v.push(format!("features = {}", src.pick(&["[]", "[\"a\"]", "[\"a\", 'b-c']", "[ \"d/e\" ,\"f\",]"])));
    }
    if !root && src.chance(1, 3) {
        v.push(format!("optional = {}", src.bool()));
    }
    if src.chance(1, 4) {
        v.push(format!("default-features = {}", src.bool()));
    }
    v
}
struct Text {
    out: String,
    n: usize,
}
impl Text {
    fn comment(&mut self, src: &mut Src) {
        if src.chance(1, 5) {
            self.n += 1;
            self.out += &format!("# c{}\n", self.n);
        }
    }
    fn end(&mut self, src: &mut Src) {
        if src.chance(1, 6) {
            self.n += 1;
            self.out += &format!(" # c{}", self.n);
        }
        self.out += "\n";
    }
}
/// Dependencies under a header; tables of their own come after
fn dependencies(t: &mut Text, head: &str, names: &[&str], root: bool, src: &mut Src) {
    let mut later = vec![];
    t.comment(src);
    t.out += &if src.chance(1, 8) { format!("[ {} ]", head.replacen('.', " . ", 1)) } else { format!("[{head}]") };
    t.end(src);
    for n in names {
        t.comment(src);
        let v = version(src);
        if src.chance(1, 10) {
            t.out += src.pick(&["  ", "\t"]);
        }
        let n = if src.chance(1, 8) { format!("{q}{n}{q}", q = src.pick(&["\"", "'"])) } else { n.to_string() };
        match src.weighted(&[4, 4, 1, 1, if root { 0 } else { 1 }, 1]) {
            4 => t.out += &src.pick(&["N.workspace = true", "N = { workspace = true }", "N = { optional = true, workspace = true }"]).replace('N', &n),
            5 => t.out += &src.pick(&["N = { path = \"../p\" }", "N = { version = V, path = 'p' }", "N.path = \"p\""]).replace('N', &n).replace('V', &v),
            0 => t.out += &format!("{n}{}{v}", src.pick(&[" = ", "=", "  =  "])),
            1 => {
                let mut f = extra(src, root);
                f.insert(src.below(f.len() as u32 + 1) as usize, format!("version = {v}"));
                let pad = *src.pick(&[" ", ""]);
                t.out += &format!("{n} = {{{pad}{}{pad}}}", f.join(", "));
            }
            2 => t.out += &format!("{n}.version = {v}"),
            _ => {
                later.push((n, v));
                continue;
            }
        }
        t.end(src);
    }
    if src.bool() {
        t.out += "\n";
    }
    for (n, v) in later {
        t.out += &format!("[{head}.{n}]\nversion = {v}");
        t.end(src);
        for e in extra(src, root) {
            t.out += &e;
            t.end(src);
        }
    }
}
fn some<'a>(src: &mut Src, num: u32) -> Vec<&'a str> {
    let mut v: Vec<&str> = NAMES.iter().copied().filter(|_| src.chance(num, 8)).collect();
    if src.chance(1, 5) {
        src.shuffle(&mut v);
    }
    v
}
fn root_text(src: &mut Src) -> String {
    let mut t = Text { out: String::new(), n: 0 };
    t.comment(src);
    t.out += "[workspace]\nmembers = [\"a\"]\n";
    let names = some(src, 3);
    let how = src.weighted(&[6, 3, 1, 1]);
    if how == 3 {
        for n in &names {
            t.out += &format!("dependencies.{n} = {}", version(src));
            t.end(src);
        }
    }
    if how == 1 {
        let items: Vec<String> = names.iter().map(|n| if src.bool() { format!("{n} = {}", version(src)) } else { format!("{n} = {{ version = {} }}", version(src)) }).collect();
        t.out += &if src.chance(1, 3) {
            let end = if items.is_empty() { "" } else { src.pick(&["", ","]) };
            let mut v = String::from("dependencies = {");
            for (i, e) in items.iter().enumerate() {
                let c = src.chance(1, 5);
                if c {
                    t.n += 1;
                    v += &format!("\n  # c{}", t.n);
                }
                v += &format!("\n  {e}{}", if i + 1 < items.len() { "," } else { end });
                if src.chance(1, 5) {
                    t.n += 1;
                    v += &format!(" # c{}", t.n);
                }
            }
            v + "\n}"
        } else {
            format!("dependencies = {{ {} }}", items.join(", "))
        };
        t.end(src);
    }
    let late = src.bool();
    let package = |t: &mut Text, src: &mut Src| {
        t.out += "\n[workspace.package]\n";
        for (k, v) in FIELDS {
            if src.bool() {
                t.out += &format!("{k} = {v}");
                t.end(src);
            }
        }
        if src.bool() {
            t.out += "\n";
        }
    };
    if late {
        package(&mut t, src);
    }
    if how == 0 {
        dependencies(&mut t, "workspace.dependencies", &names, true, src);
    }
    if !late {
        package(&mut t, src);
    }
    t.comment(src);
    finish(t, src)
}
fn finish(mut t: Text, src: &mut Src) -> String {
    if src.chance(1, 6) {
        t.out.truncate(t.out.trim_end().len());
    }
    if src.chance(1, 8) && !t.out.contains("\"\"\"") {
        t.out = t.out.replace('\n', "\r\n");
    }
    t.out
}
fn member_text(src: &mut Src) -> String {
    let mut t = Text { out: String::new(), n: 0 };
    t.out += "[package]\nname = \"a\"\n";
    for (k, v) in FIELDS {
        match src.below(4) {
            0 => t.out += &format!("{k} = {v}"),
            1 => t.out += &format!("{k}.workspace = true"),
            2 => t.out += &format!("{}={v}", if k == "publish" { "\"publish\"" } else { k }),
            _ => continue,
        }
        t.end(src);
    }
    for k in KINDS {
        if src.chance(2, 5) {
            t.out += "\n";
            let names = some(src, 3);
            dependencies(&mut t, k, &names, false, src);
        }
    }
    finish(t, src)
}
fn get<'a>(t: &'a Tbl, path: &[String]) -> Option<&'a V> {
    let v = &t.iter().find(|e| e.0 == path[0])?.1;
    if path.len() == 1 {
        return Some(v);
    }
    if let V::Tbl(t) = v { get(t, &path[1..]) } else { None }
}
fn set(t: &mut Tbl, path: &[String], v: V) {
    let i = t.iter().position(|e| e.0 == path[0]).unwrap_or_else(|| {
        t.push((path[0].clone(), V::Tbl(vec![])));
        t.len() - 1
    });
    if path.len() == 1 {
        t[i].1 = v;
    } else if let V::Tbl(u) = &mut t[i].1 {
        set(u, &path[1..], v);
    }
}
fn comments(t: &str) -> Vec<&str> {
    let mut v: Vec<&str> = t.split("# c").skip(1).map(|s| s.split(|c: char| !c.is_ascii_digit()).next().unwrap()).collect();
    v.sort();
    v
}
fn inherited(v: &V) -> V {
    let mut t: Tbl = vec![("workspace".into(), V::Bool(true))];
    if let V::Tbl(f) = v {
        t.extend(f.iter().filter(|e| e.0 != "version").cloned());
    }
    V::Tbl(t)
}
/// The place of the member that changes
fn check(ctx: &mut Ctx, a: &S, uris: &[String], texts: &[&str], enc: Enc) -> Result<Vec<String>, Fail> {
    let title = a["title"].as_str().unwrap_or_default();
    ctx.label(title);
    let data: Vec<Tbl> = texts.iter().map(|t| reftoml::parse_tbl(t, Ver::V11).expect("valid")).collect();
    let mut after: Vec<String> = texts.iter().map(|t| t.to_string()).collect();
    for d in a["edit"]["documentChanges"].as_array().map_or(&[][..], |v| v) {
        let Some(f) = uris.iter().position(|u| *u == d["textDocument"]["uri"]) else { return fail("uri", format!("{title} edits {}", d["textDocument"]["uri"])) };
        let edits: Vec<l::TextEdit> = serde_json::from_value(d["edits"].clone()).unwrap();
        after[f] = apply(texts[f], &edits, enc).or_else(|e| fail("bad-edits", format!("{title}: {e}")))?;
    }
    let show = || format!("after {title}:\n--- root\n{}\n--- member\n{}", after[0], after[1]);
    let mut got = vec![];
    for (f, t) in after.iter().enumerate() {
        match reftoml::parse_tbl(t, Ver::V11) {
            Ok(d) => got.push(d),
            Err(e) => return fail(format!("invalid:{title}:{f}"), format!("{}\nis invalid: {e:?}", show())),
        }
        ensure!(comments(t) == comments(texts[f]), format!("comments:{title}"), "comments lost {}", show());
    }
    // what may have changed: one dependency or field of the member
    let mut places: Vec<Vec<String>> = vec![];
    let path = |p: &[&str]| p.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    match title {
        "Inherit from Workspace" => places.extend(FIELDS.iter().map(|f| path(&["package", f.0]))),
        _ => {
            for h in HEADS {
                places.extend(NAMES.iter().map(|n| path(&[h, &[*n]].concat())));
            }
        }
    }
    let changed: Vec<&Vec<String>> = places
        .iter()
        .filter(|p| match (get(&data[1], p), get(&got[1], p)) {
            (Some(a), Some(b)) => reftoml::diff(a, b, false, "").is_some(),
            (a, b) => a.is_some() != b.is_some(),
        })
        .collect();
    ensure!(changed.len() == 1, format!("places:{title}"), "{} places of the member changed {}", changed.len(), show());
    let p = changed[0];
    let Some(old) = get(&data[1], p) else { return fail(format!("places:{title}"), show()) };
    let has = |k: &str| matches!(old, V::Tbl(t) if t.iter().any(|e| e.0 == k));
    ensure!(!has("workspace") && (!has("path") || !title.starts_with("Add")), "offered", "{title} {old:?} {}", show());
    let name = p.last().unwrap();
    let mut want = data.clone();
    let entry = path(&["workspace", "dependencies", name]);
    match title {
        "Inherit from Workspace" => {
            ensure!(get(&data[0], &path(&["workspace", "package", name])).is_some(), "offered", "{} is not in the workspace", name);
            set(&mut want[1], p, V::Tbl(vec![("workspace".into(), V::Bool(true))]));
        }
        "Inherit Dependency from Workspace" => {
            ensure!(get(&data[0], &entry).is_some(), "offered", "{} is not in the workspace", name);
            set(&mut want[1], p, inherited(old));
        }
        "Add to Workspace and Inherit Dependency" => {
            ensure!(get(&data[0], &entry).is_none(), "offered", "{} is in the workspace already", name);
            set(&mut want[1], p, inherited(old));
            // a dependency of the workspace cannot be optional
            let mut new = old.clone();
            if let V::Tbl(t) = &mut new {
                t.retain(|e| e.0 != "optional");
            }
            set(&mut want[0], &entry, new);
        }
        "Convert Dependency to Table Format" => set(&mut want[1], p, V::Tbl(vec![("version".into(), old.clone())])),
        _ => unreachable!(),
    }
    for f in 0..2 {
        if let Some(d) = reftoml::diff_tbl(&got[f], &want[f], false, "") {
            return fail(format!("data:{title}:{f}"), format!("{d}\n{}", show()));
        }
    }
    // sorted dependencies stay sorted
    let keys = |t: &Tbl| match get(t, &path(&["workspace", "dependencies"])) {
        Some(V::Tbl(t)) => t.iter().map(|e| e.0.clone()).collect::<Vec<_>>(),
        _ => vec![],
    };
    let (x, y) = (keys(&data[0]), keys(&got[0]));
    if x.is_sorted() && x.iter().all(|k| k != "rand_core" && k != "serde_json") && !name.contains('_') && !texts[0].contains("[workspace.dependencies.") {
        ensure!(y.is_sorted(), format!("order:{title}"), "{y:?} {}", show());
    }
    Ok(p.clone())
}
/// The actions that must be offered somewhere in the member
fn offers(root: &Tbl, member: &Tbl, text: &str) -> Vec<(&'static str, Vec<String>)> {
    let path = |p: &[&str]| p.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let mut v = vec![];
    for (f, _) in FIELDS {
        let p = path(&["package", f]);
        if get(root, &path(&["workspace", "package", f])).is_some() && get(member, &p).is_some_and(|v| !matches!(v, V::Tbl(_))) {
            v.push(("Inherit from Workspace", p));
        }
    }
    for h in HEADS {
        for n in NAMES {
            let p = path(&[h, &[n]].concat());
            let Some(d) = get(member, &p) else { continue };
            let has = |k: &str| matches!(d, V::Tbl(t) if t.iter().any(|e| e.0 == k));
            if has("workspace") || has("path") && !has("version") {
                continue;
            }
            if matches!(d, V::Str(_)) {
                v.push(("Convert Dependency to Table Format", p.clone()));
            }
            if get(root, &path(&["workspace", "dependencies", n])).is_some() {
                v.push(("Inherit Dependency from Workspace", p));
            } else if !has("path") && get(root, &path(&["workspace", "dependencies"])).is_some() && !text.contains("\ndependencies.") {
                // (entries as dotted keys of the workspace are documented not to be extended)
                v.push(("Add to Workspace and Inherit Dependency", p));
            }
        }
    }
    v
}
fn c42_cargo(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (root, member) = (root_text(src), member_text(src));
    for t in [&root, &member] {
        if let Err(e) = reftoml::parse_tbl(t, Ver::V11) {
            panic!("{e:?}\n{t}");
        }
    }
    ctx.attach("Cargo.toml", &root);
    ctx.attach("a/Cargo.toml", &member);
    ctx.sample(&member);
    let enc = [Enc::U16, Enc::U8, Enc::U32][src.weighted(&[3, 1, 1])];
    let n = actions(ctx, "Cargo.toml", &root, &member, enc, None)?;
    if n > 0 {
        ctx.nontrivial(&(&root, &member));
    }
    Ok(())
}
fn actions(ctx: &mut Ctx, file: &str, root: &str, member: &str, enc: Enc, only: Option<&str>) -> Result<usize, Fail> {
    let dir = workspace(ctx, Some("toml-version = \"v1.1.0\"\nschema.catalog = { paths = [] }\n"), &[(file, root), (&format!("a/{file}"), member)]);
    let uris: Vec<String> = [dir.join(file), dir.join("a").join(file)].iter().map(|p| url(p).to_string()).collect();
    let s = Srv::new(ctx, enc, true);
    let uri = url(&dir.join("a").join(file));
    s.open(ctx, &uri, 1, member);
    let mut seen = std::collections::BTreeMap::new();
    // at the first and third letter of every key and value
    for at in (0..=member.len()).filter(|i| member.is_char_boundary(*i)) {
        let b = |i: usize| member.as_bytes().get(i).is_some_and(|c| c.is_ascii_alphanumeric() || b"'\"_-".contains(c));
        if only.is_none() && !(b(at) && (at == 0 || !b(at - 1) || (at > 1 && b(at - 1) && !b(at - 2)))) {
            continue;
        }
        let p = position(member, at, enc);
        let a = s.request(ctx, "codeAction", &uri, p.0, p.1).or_else(|e| fail("error", e))?;
        for a in a.as_array().map_or(&[][..], |v| v) {
            let title = a["title"].as_str().unwrap_or_default();
            let known = ["Inherit from Workspace", "Inherit Dependency from Workspace", "Add to Workspace and Inherit Dependency", "Convert Dependency to Table Format", "Use Workspace Dependency", "Add to Workspace and Use Workspace Dependency"].contains(&title);
            if !known || only.is_some_and(|o| o != title) {
                continue;
            }
            let cargo = file == "Cargo.toml";
            let place = match seen.get(&a.to_string()) {
                Some((_, p)) => p,
                None => {
                    let p = (if cargo { check } else { check_py })(ctx, a, &uris, &[root, member], enc)?;
                    &seen.entry(a.to_string()).or_insert((title.to_string(), p)).1
                }
            };
            // the action is about what the cursor is at
            let edit = a["edit"]["documentChanges"].as_array().and_then(|v| v.iter().find(|d| d["textDocument"]["uri"] == uris[1]).map(|d| d["edits"][0]["range"].clone())).unwrap_or_default();
            let here = if cargo {
                let start = member[..at].rfind('\n').map_or(0, |i| i + 1);
                let line = member[start..].lines().next().unwrap_or_default();
                let head = member[..start].lines().rfind(|l| l.trim_start().starts_with('[')).unwrap_or_default();
                let name = place.last().unwrap();
                line[..at - start].contains("#") || line.contains(name.as_str()) || head.contains(name.as_str())
            } else {
                let e: l::Range = serde_json::from_value(edit.clone()).unwrap_or_default();
                e.start <= l::Position::new(p.0, p.1) && l::Position::new(p.0, p.1) <= e.end
            };
            ensure!(here, format!("elsewhere:{title}"), "at {p:?} {title} changes {place:?}, {edit} of\n{member}");
        }
    }
    if only.is_none() {
        let data: Vec<Tbl> = [root, member].iter().map(|t| reftoml::parse_tbl(t, Ver::V11).expect("valid")).collect();
        for (title, place) in (if file == "Cargo.toml" { offers } else { offers_py })(&data[0], &data[1], root) {
            ensure!(seen.values().any(|(t, p)| t == title && *p == place), format!("not-offered:{title}"), "{title} is not offered for {place:?}\n--- root\n{root}\n--- member\n{member}");
        }
    }
    Ok(seen.len())
}
// ---------------------------------------------------------------- pyproject
const PKGS: [&str; 7] = ["anyio", "boltons", "click", "numpy", "pydantic", "rich", "zstd"];
/// Name, extras, marker and whether there is a version
fn requirement(s: &str) -> (String, Vec<String>, Option<String>, bool) {
    let (req, marker) = s.split_once(';').map_or((s, None), |(a, b)| (a, Some(b.split_whitespace().collect::<Vec<_>>().join(" "))));
    let req: String = req.split_whitespace().collect();
    let end = req.find(|c: char| !c.is_ascii_alphanumeric() && !"-_.".contains(c)).unwrap_or(req.len());
    let (name, rest) = req.split_at(end);
    let (extras, rest) = match rest.strip_prefix('[').and_then(|r| r.split_once(']')) {
        Some((e, r)) => (e.split(',').filter(|e| !e.is_empty()).map(String::from).collect(), r),
        None => (vec![], rest),
    };
    (name.into(), extras, marker, !rest.is_empty())
}
fn req(src: &mut Src, name: &str) -> String {
    let extras = if src.chance(1, 4) { *src.pick(&["[a]", "[a,b-c]"]) } else { "" };
    let version = *src.pick(&["", ">=1", "==1.2.3", ">=1,<2", " >= 1.0", "~=1.4"]);
    let marker = if src.chance(1, 5) { *src.pick(&["; sys_platform == 'linux'", " ; platform_machine == 'x86_64'"]) } else { "" };
    format!("{name}{extras}{version}{marker}")
}
fn array(t: &mut Text, names: &[&str], group: Option<&str>, src: &mut Src) {
    let mut items: Vec<String> = names
        .iter()
        .map(|n| {
            let r = req(src, n);
            if !r.contains('\'') && src.chance(1, 4) { format!("'{r}'") } else { format!("\"{r}\"") }
        })
        .collect();
    if let Some(g) = group {
        let i = src.below(items.len() as u32 + 1) as usize;
        items.insert(i, format!("{{ include-group = \"{g}\" }}"));
    }
    if src.bool() {
        let comma = if items.is_empty() || src.bool() { "" } else { "," };
        t.out += &format!("[{}{comma}]", items.join(", "));
        t.end(src);
        return;
    }
    t.out += "[";
    t.end(src);
    for (i, e) in items.iter().enumerate() {
        t.comment(src);
        t.out += &format!("  {e}{}", if i + 1 < items.len() || src.bool() { "," } else { "" });
        t.end(src);
    }
    t.comment(src);
    t.out += "]";
    t.end(src);
}
fn pkgs<'a>(src: &mut Src) -> Vec<&'a str> {
    let mut v: Vec<&str> = PKGS.iter().copied().filter(|_| src.chance(3, 8)).collect();
    if src.chance(1, 6) {
        src.shuffle(&mut v);
    }
    v
}
fn project_text(name: &str, src: &mut Src) -> String {
    let mut t = Text { out: format!("[project]\nname = \"{name}\"\n"), n: 0 };
    if src.chance(7, 8) {
        t.out += "dependencies = ";
        let v = pkgs(src);
        array(&mut t, &v, None, src);
    }
    if src.bool() {
        t.out += "\n[project.optional-dependencies]\n";
        for x in ["x", "y"] {
            if src.bool() {
                t.out += &format!("{x} = ");
                let v = pkgs(src);
                array(&mut t, &v, None, src);
            }
        }
    }
    if src.bool() {
        t.out += "\n[dependency-groups]\ndev = ";
        let (v, w) = (pkgs(src), pkgs(src));
        array(&mut t, &v, src.bool().then_some("test"), src);
        t.out += "test = ";
        array(&mut t, &w, None, src);
    }
    if name == "root" {
        t.out += "\n[tool.uv.workspace]\nmembers = [\"a\"]\n";
    }
    finish(t, src)
}
/// Every array of requirements: its path and values
fn arrays(t: &Tbl) -> Vec<(Vec<String>, Vec<V>)> {
    let path = |p: &[&str]| p.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    [path(&["project", "dependencies"]), path(&["project", "optional-dependencies", "x"]), path(&["project", "optional-dependencies", "y"]), path(&["dependency-groups", "dev"]), path(&["dependency-groups", "test"])]
        .into_iter()
        .filter_map(|p| match get(t, &p) {
            Some(V::Arr(a)) => Some((p, a.clone())),
            _ => None,
        })
        .collect()
}
fn check_py(ctx: &mut Ctx, a: &S, uris: &[String], texts: &[&str], enc: Enc) -> Result<Vec<String>, Fail> {
    let title = a["title"].as_str().unwrap_or_default();
    ctx.label(title);
    let data: Vec<Tbl> = texts.iter().map(|t| reftoml::parse_tbl(t, Ver::V10).expect("valid")).collect();
    let mut after: Vec<String> = texts.iter().map(|t| t.to_string()).collect();
    for d in a["edit"]["documentChanges"].as_array().map_or(&[][..], |v| v) {
        let Some(f) = uris.iter().position(|u| *u == d["textDocument"]["uri"]) else { return fail("uri", format!("{title} edits {}", d["textDocument"]["uri"])) };
        let edits: Vec<l::TextEdit> = serde_json::from_value(d["edits"].clone()).unwrap();
        after[f] = apply(texts[f], &edits, enc).or_else(|e| fail("bad-edits", format!("{title}: {e}")))?;
    }
    let show = || format!("after {title}:\n--- root\n{}\n--- member\n{}", after[0], after[1]);
    let mut got = vec![];
    for (f, t) in after.iter().enumerate() {
        match reftoml::parse_tbl(t, Ver::V10) {
            Ok(d) => got.push(d),
            Err(e) => return fail(format!("invalid:{title}:{f}"), format!("{}\nis invalid: {e:?}", show())),
        }
        ensure!(comments(t) == comments(texts[f]), format!("comments:{title}"), "comments lost {}", show());
    }
    // the member: one requirement without its version
    let (x, y) = (arrays(&data[1]), arrays(&got[1]));
    let mut want = data.clone();
    let mut changed = vec![];
    for ((p, v), (_, w)) in x.iter().zip(&y) {
        for (i, (a, b)) in v.iter().zip(w).enumerate() {
            if reftoml::diff(a, b, false, "").is_some() {
                changed.push((p.clone(), i, a.clone(), b.clone()));
            }
        }
    }
    ensure!(changed.len() == 1, format!("places:{title}"), "{} places of the member changed {}", changed.len(), show());
    let (p, i, V::Str(old), V::Str(new)) = &changed[0] else { return fail(format!("places:{title}"), show()) };
    let (before, now) = (requirement(old), requirement(new));
    ensure!(before.3 && !now.3 && (&before.0, &before.1, &before.2) == (&now.0, &now.1, &now.2), format!("requirement:{title}"), "{old:?} became {new:?} {}", show());
    if let Some(V::Arr(v)) = get(&data[1], p) {
        let mut v = v.clone();
        v[*i] = V::Str(new.clone());
        set(&mut want[1], p, V::Arr(v));
    }
    let names = |v: &[V]| v.iter().map(|v| if let V::Str(s) = v { requirement(s).0 } else { String::new() }).collect::<Vec<_>>();
    let shared = arrays(&data[0]).iter().any(|(_, v)| names(v).contains(&before.0));
    if title == "Use Workspace Dependency" {
        ensure!(shared, "offered", "{} is not in the workspace", before.0);
    } else {
        ensure!(!shared, "offered", "{} is in the workspace already", before.0);
        // the same array of the workspace, or its dependencies
        let q = if get(&data[0], p).is_some() { p.clone() } else { vec!["project".to_string(), "dependencies".to_string()] };
        let (Some(V::Arr(x)), Some(V::Arr(y))) = (get(&data[0], &q), get(&got[0], &q)) else { return fail(format!("array:{title}"), show()) };
        let at = y.iter().position(|v| matches!(v, V::Str(s) if s == old));
        let Some(at) = at else { return fail(format!("added:{title}"), format!("{old:?} was not added {}", show())) };
        let (sx, sy): (Vec<String>, Vec<String>) = (names(x).into_iter().filter(|s| !s.is_empty()).collect(), names(y).into_iter().filter(|s| !s.is_empty()).collect());
        ensure!(!sx.is_sorted() || sy.is_sorted(), format!("order:{title}"), "{sy:?} {}", show());
        let mut v = x.clone();
        if at > v.len() {
            return fail(format!("array:{title}"), show());
        }
        v.insert(at, V::Str(old.clone()));
        set(&mut want[0], &q, V::Arr(v));
    }
    for f in 0..2 {
        if let Some(d) = reftoml::diff_tbl(&got[f], &want[f], false, "") {
            return fail(format!("data:{title}:{f}"), format!("{d}\n{}", show()));
        }
    }
    Ok([p.clone(), vec![i.to_string()]].concat())
}
fn offers_py(root: &Tbl, member: &Tbl, _: &str) -> Vec<(&'static str, Vec<String>)> {
    let there: Vec<String> = arrays(root).iter().flat_map(|(_, v)| v).filter_map(|v| if let V::Str(s) = v { Some(requirement(s).0) } else { None }).collect();
    let mut o = vec![];
    for (p, v) in arrays(member) {
        for (i, v) in v.iter().enumerate() {
            let V::Str(s) = v else { continue };
            let r = requirement(s);
            let at = [p.clone(), vec![i.to_string()]].concat();
            if !r.3 {
                continue;
            } else if there.contains(&r.0) {
                o.push(("Use Workspace Dependency", at));
            } else if get(root, &p).is_some() || get(root, &["project".to_string(), "dependencies".to_string()]).is_some() {
                o.push(("Add to Workspace and Use Workspace Dependency", at));
            }
        }
    }
    o
}
fn c42_pyproject(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (root, member) = (project_text("root", src), project_text("a", src));
    for t in [&root, &member] {
        if let Err(e) = reftoml::parse_tbl(t, Ver::V10) {
            panic!("{e:?}\n{t}");
        }
    }
    ctx.attach("pyproject.toml", &root);
    ctx.attach("a/pyproject.toml", &member);
    ctx.sample(&member);
    let enc = [Enc::U16, Enc::U8, Enc::U32][src.weighted(&[3, 1, 1])];
    let n = actions(ctx, "pyproject.toml", &root, &member, enc, None)?;
    if n > 0 {
        ctx.nontrivial(&(&root, &member));
    }
    Ok(())
}
/// {root, member, action}
fn c42_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let n = actions(ctx, j["file"].as_str().unwrap_or("Cargo.toml"), j["root"].as_str().unwrap(), j["member"].as_str().unwrap(), Enc::U16, j["action"].as_str())?;
    ensure!(n > 0, "none", "no action is offered");
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C42",
        rule: "manifests for which at least one action is offered; distinct by both manifests",
        assumptions: &["what an action does to comments within the value it replaces is not judged", "updates to the latest version need the network and are not in this"],
        streams: vec![Stream { name: "cargo", quick: 1_500, thorough: 150_000, case: c42_cargo }, Stream { name: "pyproject", quick: 1_500, thorough: 150_000, case: c42_pyproject }],
        probe: Some(c42_probe),
        min_nontrivial: 300,
    }]
}
