//! Navigation between the manifests of a Cargo workspace, as documented, against a model of the workspace.
use crate::srv::*;
use serde_json::{Value as S, json};
use std::collections::BTreeSet;
use vt_core::engine::*;
use vt_core::ensure;

#[derive(Clone, PartialEq, Debug)]
enum From {
    Path(usize),
    Ws,
    Version,
}
#[derive(Clone, Debug)]
struct Dep {
    kind: usize,
    target: Option<&'static str>,
    key: String,
    from: From,
    package: Option<String>,
    features: Vec<String>,
    optional: Option<bool>,
    style: usize,
}
#[derive(Clone, Debug, Default)]
struct Krate {
    dir: String,
    name: String,
    features: Vec<(String, Vec<String>)>,
    deps: Vec<Dep>,
    inherits: bool,
}
/// A place: manifest and byte range
type At = (usize, usize, usize);
struct W {
    file: usize,
    out: String,
    marks: Vec<(What, usize, usize)>,
}
#[derive(Clone, PartialEq, Debug)]
enum What {
    Name,
    Feature(String),
    FeatureRef(String),
    Dep(usize),
    DepPath(usize),
    DepWs(usize),
    Optional(usize),
    /// key and value together
    OptionalAll(usize),
    DepFeature(usize, String),
    WsDep(usize),
    WsPath(usize),
    WsFeature(usize, String),
    Member(usize),
    Members,
    Inherited,
    Shared,
}
impl W {
    fn mark(&mut self, w: What, text: &str) {
        let s = self.out.len();
        self.out += text;
        self.marks.push((w, s, self.out.len()));
    }
    fn string(&mut self, w: What, text: &str) {
        let q = if text.len() % 5 == 4 { "'" } else { "\"" };
        self.out += q;
        self.mark(w, text);
        self.out += q;
    }
    fn list(&mut self, items: Vec<(What, &str)>, src: &mut Src) {
        let long = src.chance(1, 4);
        self.out += "[";
        let n = items.len();
        for (i, (w, t)) in items.into_iter().enumerate() {
            self.out += if long { "\n  " } else { "" };
            self.string(w, t);
            self.out += if long { "," } else if i + 1 < n { ", " } else { "" };
        }
        self.out += if long { "\n]" } else { "]" };
    }
    fn key(&mut self, w: What, text: &str, quoted: bool) {
        if quoted {
            self.out += "\"";
        }
        self.mark(w, text);
        if quoted {
            self.out += "\"";
        }
    }
}
const KINDS: [&str; 3] = ["dependencies", "dev-dependencies", "build-dependencies"];
const NAMES: &[&str] = &["alpha", "beta", "gamma-core", "delta_x", "eps"];
const OUTER: &[&str] = &["serde", "log", "tokio"];
const FEATS: &[&str] = &["std", "full", "x", "default", "alpha"];

fn relative(from: &str, to: &str) -> String {
    let a: Vec<&str> = from.split('/').filter(|s| !s.is_empty()).collect();
    let b: Vec<&str> = to.split('/').filter(|s| !s.is_empty()).collect();
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let v: Vec<&str> = std::iter::repeat_n("..", a.len() - n).chain(b[n..].iter().copied()).collect();
    if v.is_empty() { ".".into() } else { v.join("/") }
}
/// The workspace: crates, its dependencies, members
struct Ws {
    crates: Vec<Krate>,
    deps: Vec<Dep>,
    members: Vec<String>,
    exclude: Vec<String>,
    /// members by pattern, in the order of `members`
    of: Vec<Vec<usize>>,
}
fn workspace_of(src: &mut Src) -> Ws {
    let n = src.usize(2, 5);
    let mut crates = vec![];
    for i in 0..n {
        let dir = match src.below(4) {
            0 => NAMES[i].to_string(),
            3 => format!("tools/{}", NAMES[i]),
            _ => format!("crates/{}", NAMES[i]),
        };
        let mut features: Vec<(String, Vec<String>)> = vec![];
        for f in FEATS {
            if src.chance(2, 5) {
                features.push((f.to_string(), vec![]));
            }
        }
        let inherits = src.chance(1, 3);
        crates.push(Krate { dir, name: NAMES[i].into(), features, deps: vec![], inherits });
    }
    let feature = |src: &mut Src, crates: &[Krate], c: usize| -> String {
        let f = &crates[c].features;
        if f.is_empty() || src.chance(1, 8) { src.pick(FEATS).to_string() } else { src.pick(f).0.clone() }
    };
    // another name for a crate, perhaps one that another crate has
    let renamed = |src: &mut Src, by: &str, crates: &[Krate], c: usize, taken: &[Dep]| -> String {
        let k = &src.pick(crates).name;
        if src.bool() && *k != crates[c].name && taken.iter().all(|d| d.key != *k) { k.clone() } else { format!("{by}-{}", crates[c].name) }
    };
    let mut deps: Vec<Dep> = vec![];
    for c in 0..n {
        if src.chance(3, 5) && deps.iter().all(|d| d.key != crates[c].name) {
            let (key, package) = if src.chance(1, 4) { (renamed(src, "my", &crates, c, &deps), Some(crates[c].name.clone())) } else { (crates[c].name.clone(), None) };
            let features = (0..src.below(3)).map(|_| feature(src, &crates, c)).collect();
            deps.push(Dep { kind: 0, target: None, key, from: From::Path(c), package, features, optional: None, style: src.below(3) as usize });
        }
    }
    for o in OUTER {
        if src.chance(1, 2) {
            deps.push(Dep { kind: 0, target: None, key: o.to_string(), from: From::Version, package: None, features: vec![], optional: None, style: src.below(4) as usize });
        }
    }
    for c in 0..n {
        for _ in 0..src.below(5) {
            let style = src.below(3) as usize;
            let (key, from, package, to) = match src.weighted(&[3, 3, 1]) {
                0 if !deps.is_empty() => {
                    let d = src.pick(&deps).clone();
                    let to = if let From::Path(t) = d.from { Some(t) } else { None };
                    (d.key, From::Ws, None, to)
                }
                2 => (src.pick(OUTER).to_string(), From::Version, None, None),
                _ => {
                    let t = src.below(n as u32) as usize;
                    let other = src.chance(1, 4);
                    (if other { renamed(src, "re", &crates, t, &[]) } else { crates[t].name.clone() }, From::Path(t), other.then(|| crates[t].name.clone()), Some(t))
                }
            };
            if to == Some(c) || crates[c].deps.iter().any(|d| d.key == key) {
                continue;
            }
            let kind = src.weighted(&[3, 1, 1]);
            let target = src.chance(1, 5).then_some("cfg(unix)");
            let optional = if kind == 1 || src.bool() { None } else { Some(src.chance(3, 4)) };
            let features = if let Some(t) = to { (0..src.below(3)).map(|_| feature(src, &crates, t)).collect() } else { vec![] };
            let style = if from == From::Version && features.is_empty() && optional.is_none() && src.bool() { 3 } else { style };
            crates[c].deps.push(Dep { kind, target, key, from, package, features, optional, style });
        }
    }
    // what features turn on
    let all = crates.clone();
    for c in 0..n {
        for f in 0..all[c].features.len() {
            for _ in 0..src.below(4) {
                let r = if all[c].deps.is_empty() || src.bool() {
                    let k = src.below(all[c].features.len() as u32) as usize;
                    if k == f { continue } else { all[c].features[k].0.clone() }
                } else {
                    let d = src.pick(&all[c].deps);
                    let to = match &d.from {
                        From::Path(t) => Some(*t),
                        From::Ws => deps.iter().find(|w| w.key == d.key).and_then(|w| if let From::Path(t) = w.from { Some(t) } else { None }),
                        From::Version => None,
                    };
                    match src.below(4) {
                        0 if d.optional == Some(true) => format!("dep:{}", d.key),
                        1 if d.optional == Some(true) => d.key.clone(),
                        2 if d.optional == Some(true) => format!("{}?/{}", d.key, to.map_or("x".into(), |t| feature(src, &all, t))),
                        _ => format!("{}/{}", d.key, to.map_or("x".into(), |t| feature(src, &all, t))),
                    }
                };
                crates[c].features[f].1.push(r);
            }
        }
    }
    // members
    let (mut members, mut exclude) = (vec![], vec![]);
    let glob = src.bool();
    if glob {
        members.push("crates/*".to_string());
    }
    for k in &crates {
        let by_glob = glob && k.dir.starts_with("crates/");
        if by_glob && src.chance(1, 6) {
            exclude.push(k.dir.clone());
        } else if (!by_glob && src.chance(5, 6)) || (by_glob && src.chance(1, 12)) {
            members.push(k.dir.clone());
        }
    }
    src.shuffle(&mut members);
    let of = members
        .iter()
        .map(|m| (0..n).filter(|c| if m == "crates/*" { crates[*c].dir.starts_with("crates/") } else { crates[*c].dir == *m }).filter(|c| !exclude.contains(&crates[*c].dir)).collect())
        .collect();
    Ws { crates, deps, members, exclude, of }
}
fn fields(w: &mut W, d: &Dep, i: usize, base: &str, ws: &Ws, src: &mut Src) -> Vec<String> {
    // fields are rendered apart; their marks are relative to the start of the field
    let mut v = vec![];
    let mark = |w: &mut W, f: &mut dyn FnMut(&mut W)| {
        let (at, n) = (w.out.len(), w.marks.len());
        f(w);
        let text = w.out.split_off(at);
        for m in &mut w.marks[n..] {
            m.1 -= at;
            m.2 -= at;
        }
        (text, w.marks.split_off(n))
    };
    let root = base.is_empty();
    let mut parts = vec![];
    match &d.from {
        From::Path(c) => {
            let p = relative(base, &ws.crates[*c].dir);
            let what = if root { What::WsPath(i) } else { What::DepPath(i) };
            parts.push(mark(w, &mut |w| {
                w.mark(what.clone(), "path");
                w.out += " = ";
                w.string(what.clone(), &p);
            }));
        }
        From::Ws => parts.push(mark(w, &mut |w| {
            w.mark(What::DepWs(i), "workspace");
            w.out += " = true";
        })),
        From::Version => parts.push(mark(w, &mut |w| w.out += "version = \"1\"")),
    }
    if let Some(p) = &d.package {
        parts.push(mark(w, &mut |w| w.out += &format!("package = \"{p}\"")));
    }
    if let Some(o) = d.optional {
        parts.push(mark(w, &mut |w| {
            let s = w.out.len();
            w.mark(What::Optional(i), "optional");
            w.out += " = ";
            w.mark(What::Optional(i), if o { "true" } else { "false" });
            let e = w.out.len();
            w.marks.push((What::OptionalAll(i), s, e));
        }));
    }
    if !d.features.is_empty() {
        let items: Vec<(What, &str)> = d.features.iter().map(|f| (if root { What::WsFeature(i, f.clone()) } else { What::DepFeature(i, f.clone()) }, f.as_str())).collect();
        let mut r = Some(items);
        parts.push(mark(w, &mut |w| {
            w.out += "features = ";
            // one line: it may stand in an inline table
            w.out += "[";
            for (k, (what, t)) in r.take().unwrap().into_iter().enumerate() {
                w.out += if k > 0 { ", " } else { "" };
                w.string(what, t);
            }
            w.out += "]";
        }));
    }
    src.shuffle(&mut parts);
    FIELDS.with(|f| {
        let mut f = f.borrow_mut();
        f.clear();
        for (t, m) in parts {
            v.push(t);
            f.push(m);
        }
    });
    v
}
thread_local!(static FIELDS: std::cell::RefCell<Vec<Vec<(What, usize, usize)>>> = const { std::cell::RefCell::new(vec![]) });
fn put(w: &mut W, text: &str, marks: &[(What, usize, usize)]) {
    let at = w.out.len();
    w.out += text;
    w.marks.extend(marks.iter().map(|m| (m.0.clone(), m.1 + at, m.2 + at)));
}
fn deps(w: &mut W, ds: &[Dep], base: &str, ws: &Ws, src: &mut Src) {
    let root = base.is_empty();
    let what = |i| if root { What::WsDep(i) } else { What::Dep(i) };
    let head = |d: &Dep| match (root, d.target) {
        (true, _) => "workspace.dependencies".to_string(),
        (_, None) => KINDS[d.kind].to_string(),
        (_, Some(t)) => format!("target.'{t}'.{}", KINDS[d.kind]),
    };
    let mut heads: Vec<String> = ds.iter().map(head).collect();
    heads.sort();
    heads.dedup();
    for h in heads {
        let mine: Vec<usize> = (0..ds.len()).filter(|i| head(&ds[*i]) == h).collect();
        if mine.iter().any(|i| ds[*i].style != 2) {
            w.out += &format!("\n[{h}]\n");
        }
        for &i in mine.iter().filter(|i| ds[**i].style != 2) {
            let d = &ds[i];
            let quoted = src.chance(1, 10);
            if d.style == 3 {
                w.key(what(i), &d.key, quoted);
                w.out += " = \"1\"\n";
                continue;
            }
            let fs = fields(w, d, i, base, ws, src);
            let ms = FIELDS.with(|f| f.borrow().clone());
            if d.style == 0 {
                w.key(what(i), &d.key, quoted);
                w.out += " = { ";
                for (k, t) in fs.iter().enumerate() {
                    w.out += if k > 0 { ", " } else { "" };
                    put(w, t, &ms[k]);
                }
                w.out += " }\n";
            } else {
                for (k, t) in fs.iter().enumerate() {
                    if k == 0 {
                        w.key(what(i), &d.key, quoted);
                    } else {
                        w.out += &d.key;
                    }
                    w.out += ".";
                    put(w, t, &ms[k]);
                    w.out += "\n";
                }
            }
        }
        for &i in mine.iter().filter(|i| ds[**i].style == 2) {
            w.out += &format!("\n[{h}.");
            w.key(what(i), &ds[i].key, src.chance(1, 10));
            w.out += "]\n";
            let fs = fields(w, &ds[i], i, base, ws, src);
            let ms = FIELDS.with(|f| f.borrow().clone());
            for (k, t) in fs.iter().enumerate() {
                put(w, t, &ms[k]);
                w.out += "\n";
            }
        }
    }
}
fn crate_text(file: usize, ws: &Ws, src: &mut Src) -> W {
    let k = &ws.crates[file];
    let mut w = W { file, out: String::new(), marks: vec![] };
    if src.chance(1, 4) {
        w.out += "# a crate: \u{e9}\n";
    }
    w.out += "[package]\nname = ";
    w.string(What::Name, &k.name);
    w.out += "\n";
    if k.inherits {
        if src.bool() {
            w.out += "version = { ";
            w.mark(What::Inherited, "workspace");
            w.out += " = true }\n";
        } else {
            w.out += "version.";
            w.mark(What::Inherited, "workspace");
            w.out += " = true\n";
        }
    } else {
        w.out += "version = \"0.1.0\"\n";
    }
    let late = src.bool();
    if late {
        deps(&mut w, &k.deps, &k.dir, ws, src);
    }
    if !k.features.is_empty() {
        w.out += "\n[features]\n";
        for (f, refs) in &k.features {
            w.key(What::Feature(f.clone()), f, src.chance(1, 10));
            w.out += " = ";
            w.list(refs.iter().map(|r| (What::FeatureRef(r.clone()), r.as_str())).collect(), src);
            w.out += "\n";
        }
    }
    if !late {
        deps(&mut w, &k.deps, &k.dir, ws, src);
    }
    w
}
fn root_text(ws: &Ws, src: &mut Src) -> W {
    let mut w = W { file: ws.crates.len(), out: String::new(), marks: vec![] };
    w.out += "[workspace]\nresolver = \"3\"\n";
    w.mark(What::Members, "members");
    w.out += " = ";
    w.list(ws.members.iter().enumerate().map(|(i, m)| (What::Member(i), m.as_str())).collect(), src);
    w.out += "\n";
    if !ws.exclude.is_empty() {
        w.out += &format!("exclude = {}\n", json!(ws.exclude));
    }
    let late = src.bool();
    if late {
        deps(&mut w, &ws.deps, "", ws, src);
        w.out += "\n";
    }
    w.out += "\n[workspace.package]\n";
    w.mark(What::Shared, "version");
    w.out += " = \"1.2.3\"\n";
    if !late {
        deps(&mut w, &ws.deps, "", ws, src);
    }
    w
}
/// What a feature string or dependency means
#[derive(PartialEq, Clone, Debug)]
enum Means {
    Feature(usize, String),
    Optional(usize, usize),
}
impl Ws {
    fn goal(&self, d: &Dep) -> Option<usize> {
        match d.from {
            From::Path(c) => Some(c),
            From::Ws => self.deps.iter().find(|w| w.key == d.key).and_then(|w| self.goal(w)),
            From::Version => None,
        }
    }
    fn package<'a>(&'a self, d: &'a Dep) -> &'a str {
        match d.from {
            From::Ws => self.deps.iter().find(|w| w.key == d.key).map_or(&d.key, |w| self.package(w)),
            _ => d.package.as_ref().unwrap_or(&d.key),
        }
    }
    fn feature(&self, c: usize, f: &str) -> Option<Means> {
        self.crates[c].features.iter().any(|x| x.0 == f).then(|| Means::Feature(c, f.into()))
    }
    fn optional(&self, c: usize, key: &str) -> Option<Means> {
        self.crates[c].deps.iter().position(|d| d.key == key && d.optional == Some(true)).map(|i| Means::Optional(c, i))
    }
    fn means(&self, c: usize, r: &str) -> Option<Means> {
        if let Some(d) = r.strip_prefix("dep:") {
            return self.optional(c, d);
        }
        if let Some((d, f)) = r.split_once('/') {
            let d = d.trim_end_matches('?');
            let d = self.crates[c].deps.iter().find(|x| x.key == d)?;
            return self.feature(self.goal(d)?, f);
        }
        self.feature(c, r).or_else(|| {
            let explicit = self.crates[c].features.iter().flat_map(|f| &f.1).any(|x| x.strip_prefix("dep:") == Some(r));
            if explicit { None } else { self.optional(c, r) }
        })
    }
    fn of_mark(&self, file: usize, m: &What) -> Option<Means> {
        match m {
            What::FeatureRef(r) => self.means(file, r),
            What::DepFeature(i, f) => self.feature(self.goal(&self.crates[file].deps[*i])?, f),
            What::WsFeature(i, f) => self.feature(self.goal(&self.deps[*i])?, f),
            _ => None,
        }
    }
    fn is_member(&self, c: usize) -> bool {
        self.of.iter().flatten().any(|x| *x == c)
    }
}
fn c41_cargo(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ws = workspace_of(src);
    let n = ws.crates.len();
    let mut ms: Vec<W> = (0..n).map(|c| crate_text(c, &ws, src)).collect();
    ms.push(root_text(&ws, src));
    let path = |f: usize| if f == n { "Cargo.toml".to_string() } else { format!("{}/Cargo.toml", ws.crates[f].dir) };
    let files: Vec<(String, &str)> = ms.iter().map(|m| (path(m.file), m.out.as_str())).collect();
    for (p, t) in &files {
        ctx.attach(p, t);
    }
    let refs: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), *b)).collect();
    let dir = workspace(ctx, Some("schema.catalog = { paths = [] }\n"), &refs);
    let uris: Vec<String> = files.iter().map(|(p, _)| url(&dir.join(p)).to_string()).collect();
    ctx.sample(ms[n].out.clone());
    let s = Srv::new(ctx, Enc::U16, true);
    // every manifest may be open
    let all_open = src.chance(1, 4);
    let cur = if src.chance(1, 3) { n } else { src.below(n as u32) as usize };
    for f in 0..=n {
        if f == cur || all_open {
            s.open(ctx, &url(&dir.join(path(f))), 1, &ms[f].out);
        }
    }
    let find = |f: usize, w: &What| -> Vec<At> { ms[f].marks.iter().filter(|m| m.0 == *w).map(|m| (f, m.1, m.2)).collect() };
    let name = |c: usize| find(c, &What::Name);
    let means = |m: &Means| match m {
        Means::Feature(c, f) => find(*c, &What::Feature(f.clone())),
        // the value, or the field
        Means::Optional(c, i) => find(*c, &What::Optional(*i))[1..].to_vec(),
    };
    let read = |a: &S| places(a, &uris, &|f| &ms[f].out);
    let show = |v: &[At]| v.iter().map(|(f, a, b)| format!("{}:{:?}@{a}", path(*f), ms[*f].out.get(*a..*b).unwrap_or("?"))).collect::<Vec<_>>().join(", ");
    let uri = url(&dir.join(path(cur)));
    let mut led = 0;
    for (what, a, b) in ms[cur].marks.clone() {
        if matches!(what, What::OptionalAll(_)) || (a == b && cur == n) {
            continue;
        }
        let at = position(&ms[cur].out, a, Enc::U16);
        let word = format!("on {what:?} in {} at {}:{}", path(cur), at.0, at.1);
        let here: Vec<At> = vec![(cur, a, b)];
        let ask = |ctx: &mut Ctx, m: &str| -> Result<Vec<At>, Fail> {
            let r = s.request(ctx, m, &uri, at.0, at.1).or_else(|e| fail("error", format!("{word}: {e}")))?;
            read(&r).or_else(|e| fail("place", format!("{m} {word}: {e}")))
        };
        // ---- definition
        let dep = |d: &Dep| -> Vec<At> {
            match (ws.goal(d), &d.from) {
                (Some(c), _) => name(c),
                (None, From::Ws) => ws.deps.iter().position(|w| w.key == d.key).map_or(vec![], |i| find(n, &What::WsDep(i))),
                _ => vec![],
            }
        };
        let declared = |d: &Dep| if d.from == From::Ws { ws.deps.iter().position(|w| w.key == d.key).map_or(vec![], |i| find(n, &What::WsDep(i))) } else { vec![] };
        let want: Option<Vec<At>> = match &what {
            What::Name | What::Feature(_) => Some(here.clone()),
            What::FeatureRef(_) | What::DepFeature(..) | What::WsFeature(..) => ws.of_mark(cur, &what).map(|m| means(&m)).or((!matches!(what, What::WsFeature(..))).then(Vec::new)),
            What::Dep(i) => Some(dep(&ws.crates[cur].deps[*i])),
            What::DepPath(i) => Some(dep(&ws.crates[cur].deps[*i])),
            What::WsPath(i) => Some(dep(&ws.deps[*i])),
            What::DepWs(i) => Some(declared(&ws.crates[cur].deps[*i])),
            What::Optional(i) => (ws.crates[cur].deps[*i].optional == Some(true)).then(|| find(cur, &What::OptionalAll(*i))),
            What::WsDep(i) => Some(if ws.goal(&ws.deps[*i]).is_some() { dep(&ws.deps[*i]) } else { here.clone() }),
            What::Member(i) => Some(ws.of[*i].iter().flat_map(|c| name(*c)).collect()),
            What::Members => Some(ws.of.iter().flatten().flat_map(|c| name(*c)).collect()),
            What::Inherited => Some(find(n, &What::Shared)),
            What::Shared | What::OptionalAll(_) => None,
        };
        if let Some(want) = want {
            let got = ask(ctx, "definition")?;
            let (g, w): (BTreeSet<At>, BTreeSet<At>) = (got.iter().copied().collect(), want.iter().copied().collect());
            // an entry of which nothing more is known may be its own definition
            let own = want.is_empty() && matches!(what, What::Dep(_)) && got == here;
            ensure!(g == w || own, format!("definition-{}", kind(&what)), "definition {word}: {} and not {}", show(&got), show(&want));
            led += !got.is_empty() as usize;
        }
        // ---- declaration
        if let What::Dep(i) | What::DepWs(i) = &what {
            let d = &ws.crates[cur].deps[*i];
            if d.from == From::Ws {
                let got = ask(ctx, "declaration")?;
                ensure!(got == declared(d), format!("declaration-{}", kind(&what)), "declaration {word}: {} and not {}", show(&got), show(&declared(d)));
            }
        }
        // ---- references
        let member = |c: &usize| ws.is_member(*c);
        let (want, may): (Vec<At>, Vec<At>) = match &what {
            What::Name => {
                let mut v = vec![];
                if member(&cur) || cur == n {
                    v.extend((0..ws.deps.len()).filter(|i| ws.package(&ws.deps[*i]) == ws.crates[cur].name).flat_map(|i| find(n, &What::WsDep(i))));
                    for c in (0..n).filter(member) {
                        v.extend((0..ws.crates[c].deps.len()).filter(|i| ws.package(&ws.crates[c].deps[*i]) == ws.crates[cur].name).flat_map(|i| find(c, &What::Dep(i))));
                    }
                    (v, vec![])
                } else {
                    continue;
                }
            }
            What::Feature(f) => {
                let m = Means::Feature(cur, f.clone());
                let v = (0..=n).filter(|c| *c == n || *c == cur || member(c)).flat_map(|c| ms[c].marks.iter().filter(|x| ws.of_mark(c, &x.0) == Some(m.clone())).map(|x| (c, x.1, x.2)).collect::<Vec<_>>()).collect();
                (v, here.clone())
            }
            What::Optional(i) if ws.crates[cur].deps[*i].optional == Some(true) => {
                let m = Means::Optional(cur, *i);
                (ms[cur].marks.iter().filter(|x| ws.of_mark(cur, &x.0) == Some(m.clone())).map(|x| (cur, x.1, x.2)).collect(), find(cur, &What::OptionalAll(*i)))
            }
            What::WsDep(i) => {
                let key = &ws.deps[*i].key;
                let users = |inherit: bool| (0..n).filter(member).flat_map(|c| (0..ws.crates[c].deps.len()).filter(|j| { let d = &ws.crates[c].deps[*j]; d.key == *key && (d.from == From::Ws) == inherit }).flat_map(|j| find(c, &What::Dep(j))).collect::<Vec<_>>()).collect::<Vec<At>>();
                (users(true), users(false))
            }
            _ => continue,
        };
        let got = ask(ctx, "references")?;
        let (g, w, m): (BTreeSet<At>, BTreeSet<At>, BTreeSet<At>) = (got.iter().copied().collect(), want.iter().copied().collect(), may.iter().copied().collect());
        let extra: Vec<At> = g.iter().filter(|x| !w.contains(x) && !m.contains(x)).copied().collect();
        let missing: Vec<At> = w.difference(&g).copied().collect();
        ensure!(extra.is_empty(), format!("references-extra-{}", kind(&what)), "references {word}: {}, but not {}", show(&got), show(&extra));
        ensure!(missing.is_empty(), format!("references-missing-{}", kind(&what)), "references {word}: {}, without {}", show(&got), show(&missing));
        ensure!(g.len() == got.len(), format!("references-twice-{}", kind(&what)), "references {word}: {}", show(&got));
        led += !want.is_empty() as usize;
    }
    if led > 2 {
        ctx.nontrivial(&ms.iter().map(|m| m.out.as_str()).collect::<Vec<_>>());
    }
    Ok(())
}

// ---------------------------------------------------------------- pyproject
#[derive(Clone, PartialEq, Debug)]
enum PyWhat {
    Name,
    /// package, has a version
    Req(String, bool),
    Group(String),
    Include(String),
    Source(String),
    SourceFlag(String),
    SourcePath(String),
    Member(usize),
    Members,
}
struct Py {
    dir: String,
    name: String,
    text: String,
    marks: Vec<(PyWhat, usize, usize)>,
    /// package, path of another project or of the workspace
    sources: Vec<(String, Option<usize>)>,
}
impl Py {
    fn mark(&mut self, w: PyWhat, t: &str) {
        let s = self.text.len();
        self.text += t;
        self.marks.push((w, s, self.text.len()));
    }
    fn string(&mut self, w: PyWhat, t: &str, src: &mut Src) {
        let q = if src.chance(1, 4) && !t.contains('\'') { "'" } else { "\"" };
        self.text += q;
        self.mark(w, t);
        self.text += q;
    }
    fn reqs(&mut self, pool: &[String], src: &mut Src, groups: &[String]) {
        let long = src.chance(1, 3);
        self.text += "[";
        for _ in 0..src.below(4) {
            self.text += if long { "\n  " } else { " " };
            if !groups.is_empty() && src.chance(1, 3) {
                let g = src.pick(groups).clone();
                self.text += "{ include-group = ";
                self.string(PyWhat::Include(g.clone()), &g, src);
                self.text += " }";
            } else {
                let p = src.pick(pool).clone();
                let tail = *src.pick(&["", "", ">=1.0", "[extra]", "[extra]==2.*", " ; python_version > '3.8'", ">=1,<2 ; python_version > '3.8'"]);
                let t = format!("{p}{tail}");
                self.string(PyWhat::Req(p, tail.contains(['=', '<']) ), &t, src);
            }
            self.text += ",";
        }
        self.text += if long { "\n]" } else { "]" };
    }
}
fn c41_pyproject(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.usize(1, 4);
    let names: Vec<String> = ["alpha", "beta-core", "gamma", "alpha-x"].iter().map(|s| s.to_string()).collect();
    let dirs: Vec<String> = (0..n).map(|i| match src.below(3) { 0 => names[i].clone(), _ => format!("packages/{}", names[i]) }).collect();
    let (mut members, mut exclude): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let glob = src.bool();
    if glob {
        members.push("packages/*".into());
    }
    for d in &dirs {
        let by_glob = glob && d.starts_with("packages/");
        if by_glob && src.chance(1, 6) {
            exclude.push(if src.bool() { d.clone() } else { format!("{}*", &d[..d.len() - 2]) });
        } else if !by_glob && src.chance(5, 6) {
            members.push(d.clone());
        }
    }
    src.shuffle(&mut members);
    let excluded = |d: &str| exclude.iter().any(|e| e == d || e.strip_suffix('*').is_some_and(|p| d.starts_with(p)));
    let of: Vec<Vec<usize>> = members.iter().map(|m| (0..n).filter(|c| if m == "packages/*" { dirs[*c].starts_with("packages/") } else { dirs[*c] == *m }).filter(|c| !excluded(&dirs[*c])).collect()).collect();
    let member = |c: usize| of.iter().flatten().any(|x| *x == c);
    let mut pool: Vec<String> = names[..n].to_vec();
    pool.extend(["requests", "numpy"].map(String::from));
    let mut ps: Vec<Py> = vec![];
    for c in 0..=n {
        let (dir, name) = if c == n { (String::new(), "the-root".to_string()) } else { (dirs[c].clone(), names[c].clone()) };
        let mut p = Py { dir, name: name.clone(), text: String::new(), marks: vec![], sources: vec![] };
        p.text += "[project]\nname = ";
        p.string(PyWhat::Name, &name, src);
        p.text += "\nversion = \"1\"\n";
        if src.chance(3, 4) {
            p.text += "dependencies = ";
            p.reqs(&pool, src, &[]);
            p.text += "\n";
        }
        if src.chance(1, 3) {
            p.text += "\n[project.optional-dependencies]\nx = ";
            p.reqs(&pool, src, &[]);
            p.text += "\n";
        }
        if src.chance(1, 2) {
            p.text += "\n[dependency-groups]\n";
            let groups: Vec<String> = ["dev", "lint", "test"].iter().take(src.usize(1, 3)).map(|s| s.to_string()).collect();
            for g in &groups {
                p.mark(PyWhat::Group(g.clone()), g);
                p.text += " = ";
                let others: Vec<String> = groups.iter().filter(|o| *o != g).cloned().collect();
                p.reqs(&pool, src, &others);
                p.text += "\n";
            }
        }
        if src.chance(2, 3) {
            p.text += "\n[tool.uv.sources]\n";
            for t in 0..n {
                if t == c || !src.bool() {
                    continue;
                }
                let dotted = src.chance(1, 3);
                p.mark(PyWhat::Source(names[t].clone()), &names[t]);
                p.text += if dotted { "." } else { " = { " };
                if src.bool() {
                    p.mark(PyWhat::SourceFlag(names[t].clone()), "workspace");
                    p.text += " = true";
                    p.sources.push((names[t].clone(), None));
                } else {
                    p.text += "path = ";
                    let r = relative(&p.dir, &dirs[t]);
                    p.string(PyWhat::SourcePath(names[t].clone()), &r, src);
                    p.sources.push((names[t].clone(), Some(t)));
                }
                p.text += if dotted { "\n" } else { " }\n" };
            }
        }
        if c == n {
            p.text += "\n[tool.uv.workspace]\n";
            p.mark(PyWhat::Members, "members");
            p.text += " = [";
            for (i, m) in members.iter().enumerate() {
                p.text += if i > 0 { ", " } else { "" };
                p.string(PyWhat::Member(i), m, src);
            }
            p.text += "]\n";
            if !exclude.is_empty() {
                p.text += &format!("exclude = {}\n", json!(exclude));
            }
        }
        ps.push(p);
    }
    let path = |c: usize| if c == n { "pyproject.toml".to_string() } else { format!("{}/pyproject.toml", dirs[c]) };
    let files: Vec<(String, &str)> = ps.iter().enumerate().map(|(c, p)| (path(c), p.text.as_str())).collect();
    for (p, t) in &files {
        ctx.attach(p, t);
    }
    let refs: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), *b)).collect();
    let dir = workspace(ctx, Some("schema.catalog = { paths = [] }\n"), &refs);
    let uris: Vec<String> = files.iter().map(|(p, _)| url(&dir.join(p)).to_string()).collect();
    ctx.sample(ps[n].text.clone());
    let s = Srv::new(ctx, Enc::U16, true);
    let cur = if src.chance(1, 3) { n } else { src.below(n as u32) as usize };
    let uri = url(&dir.join(path(cur)));
    s.open(ctx, &uri, 1, &ps[cur].text);
    let find = |c: usize, f: &dyn Fn(&PyWhat) -> bool| -> Vec<At> { ps[c].marks.iter().filter(|m| f(&m.0)).map(|m| (c, m.1, m.2)).collect() };
    let name = |c: usize| find(c, &|w| *w == PyWhat::Name);
    let by_name = |p: &str| (0..n).find(|c| names[*c] == p && member(*c));
    let reqs = |c: usize, p: &str| find(c, &|w| matches!(w, PyWhat::Req(q, _) if q == p));
    let entry = |p: &str| by_name(p).map_or(vec![], |t| {
        let i = (0..members.len()).find(|i| of[*i].contains(&t)).unwrap();
        find(n, &|w| *w == PyWhat::Member(i))
    });
    let show = |v: &[At]| v.iter().map(|(f, a, b)| format!("{}:{:?}@{a}", path(*f), ps[*f].text.get(*a..*b).unwrap_or("?"))).collect::<Vec<_>>().join(", ");
    let mut led = 0;
    for (what, a, b) in &ps[cur].marks {
        let here = vec![(cur, *a, *b)];
        let at = position(&ps[cur].text, *a, Enc::U16);
        let source = |p: &str| ps[cur].sources.iter().find(|s| s.0 == p);
        let all_members = || of.iter().flatten().flat_map(|c| name(*c)).collect::<Vec<At>>();
        // for each request what must be answered, and what else may
        type Want = (&'static str, Vec<At>, Vec<At>);
        let mut wants: Vec<Want> = vec![];
        match what {
            PyWhat::Name => {
                wants.push(("definition", here.clone(), vec![]));
                if cur == n || member(cur) {
                    let mut v = vec![];
                    for c in (0..=n).filter(|c| *c == n || member(*c)) {
                        v.extend(find(c, &|w| matches!(w, PyWhat::Source(q) if *q == ps[cur].name)));
                        v.extend(reqs(c, &ps[cur].name));
                    }
                    wants.push(("references", v, vec![]));
                }
            }
            PyWhat::Req(p, version) => {
                let from_entries = if cur == n || *version { vec![] } else { reqs(n, p) };
                let from_root = if cur == n || *version { vec![] } else { reqs(n, p) };
                let (def, decl) = match source(p) {
                    Some((_, None)) => (by_name(p).map_or(vec![], name), entry(p)),
                    Some((_, Some(t))) => (name(*t), find(cur, &|w| *w == PyWhat::Source(p.clone()))),
                    None if !from_root.is_empty() => (from_root.clone(), from_root),
                    None => (by_name(p).map_or(vec![], name), vec![]),
                };
                // what nothing else defines is its own definition
                if def.is_empty() {
                    wants.push(("definition", vec![], here.clone()));
                } else {
                    wants.push(("definition", def, vec![]));
                }
                wants.push(("declaration", decl.clone(), if source(p).is_some() && decl.is_empty() { from_entries } else { vec![] }));
                if cur == n {
                    wants.push(("references", (0..n).filter(|c| member(*c)).flat_map(|c| reqs(c, p)).collect(), decl.into_iter().chain(reqs(cur, p)).collect()));
                }
            }
            PyWhat::Group(g) => {
                wants.push(("definition", here.clone(), vec![]));
                wants.push(("references", find(cur, &|w| *w == PyWhat::Include(g.clone())), here.clone()));
            }
            PyWhat::Include(g) => wants.push(("definition", find(cur, &|w| *w == PyWhat::Group(g.clone())), vec![])),
            PyWhat::Source(p) => match source(p) {
                Some((_, None)) => wants.push(("definition", by_name(p).map_or(vec![], name), vec![])),
                Some((_, Some(t))) => wants.push(("definition", vec![], name(*t))),
                None => {}
            },
            PyWhat::SourceFlag(p) => {
                wants.push(("definition", entry(p), vec![]));
                wants.push(("declaration", entry(p), vec![]));
            }
            PyWhat::SourcePath(p) => {
                if let Some((_, Some(t))) = source(p) {
                    wants.push(("definition", name(*t), vec![]));
                }
            }
            PyWhat::Member(i) => wants.push(("definition", of[*i].iter().flat_map(|c| name(*c)).collect(), vec![])),
            PyWhat::Members => {
                wants.push(("definition", all_members(), vec![]));
                wants.push(("declaration", all_members(), vec![]));
            }
        }
        for (method, want, may) in wants {
            let word = format!("{method} on {what:?} in {} at {}:{}", path(cur), at.0, at.1);
            let kind = format!("{what:?}").split('(').next().unwrap().to_string();
            let r = s.request(ctx, method, &uri, at.0, at.1).or_else(|e| fail("error", format!("{word}: {e}")))?;
            let got = places(&r, &uris, &|f| &ps[f].text).or_else(|e| fail("place", format!("{word}: {e}")))?;
            let (g, w, m): (BTreeSet<At>, BTreeSet<At>, BTreeSet<At>) = (got.iter().copied().collect(), want.iter().copied().collect(), may.iter().copied().collect());
            ensure!(g.iter().all(|x| w.contains(x) || m.contains(x)), format!("py-{method}-extra-{kind}"), "{word}: {} and not {}", show(&got), show(&want));
            ensure!(w.is_subset(&g), format!("py-{method}-missing-{kind}"), "{word}: {} and not {}", show(&got), show(&want));
            led += !want.is_empty() as usize;
        }
    }
    if led > 2 {
        ctx.nontrivial(&ps.iter().map(|p| p.text.as_str()).collect::<Vec<_>>());
    }
    Ok(())
}
/// Locations in an answer as places
fn places<'a>(a: &S, uris: &[String], text: &dyn Fn(usize) -> &'a str) -> Result<Vec<At>, String> {
    let v: Vec<&S> = match a {
        S::Null => vec![],
        S::Array(v) => v.iter().collect(),
        o => vec![o],
    };
    v.into_iter()
        .map(|l| {
            let u = l["uri"].as_str().unwrap_or("");
            let f = uris.iter().position(|x| x == u).ok_or_else(|| format!("leads to {u:?}"))?;
            let p = |p: &S| offset(text(f), p["line"].as_u64().unwrap() as u32, p["character"].as_u64().unwrap() as u32, Enc::U16);
            match (p(&l["range"]["start"]), p(&l["range"]["end"])) {
                (Some(a), Some(b)) => Ok((f, a, b)),
                _ => Err(format!("{} is not in {u}", l["range"])),
            }
        })
        .collect()
}
/// {files: {path: text}, at: [path, text of the place], method, want: [[path, offset, text]]}
fn c41_probe(j: &S, ctx: &mut Ctx) -> CaseResult {
    let files: Vec<(&str, &str)> = j["files"].as_object().unwrap().iter().map(|(k, v)| (k.as_str(), v.as_str().unwrap())).collect();
    let dir = workspace(ctx, Some("schema.catalog = { paths = [] }\n"), &files);
    let s = Srv::new(ctx, Enc::U16, true);
    let text_of = |p: &str| files.iter().find(|f| f.0 == p).map(|f| f.1);
    let (file, place) = (j["at"][0].as_str().unwrap(), j["at"][1].as_str().unwrap());
    let text = text_of(file).unwrap();
    let uri = url(&dir.join(file));
    s.open(ctx, &uri, 1, text);
    let at = position(text, text.find(place).unwrap(), Enc::U16);
    let a = s.request(ctx, j["method"].as_str().unwrap(), &uri, at.0, at.1).or_else(|e| fail("error", e))?;
    let v: Vec<&S> = match &a {
        S::Null => vec![],
        S::Array(v) => v.iter().collect(),
        o => vec![o],
    };
    let mut got = vec![];
    for l in v {
        let Some((p, t)) = files.iter().find(|f| url(&dir.join(f.0)).as_str() == l["uri"]) else { return fail("place", format!("leads to {l}")) };
        let o = |p: &S| offset(t, p["line"].as_u64().unwrap() as u32, p["character"].as_u64().unwrap() as u32, Enc::U16);
        let (Some(x), Some(y)) = (o(&l["range"]["start"]), o(&l["range"]["end"])) else { return fail("place", format!("leads to {l}")) };
        got.push(json!([p, x, t[x..y]]));
    }
    ensure!(json!(got) == j["want"], "place", "{} on {place:?} in {file}: {} and not {}", j["method"], json!(got), j["want"]);
    Ok(())
}
fn kind(w: &What) -> String {
    format!("{w:?}").split('(').next().unwrap().to_string()
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C41",
        rule: "more than two places of a manifest lead to places of the workspace; distinct by all manifests",
        assumptions: &["what stands before a target on its line is ASCII", "a dependency has one key and one table in a manifest"],
        streams: vec![Stream { name: "cargo", quick: 1_500, thorough: 150_000, case: c41_cargo }, Stream { name: "pyproject", quick: 1_500, thorough: 150_000, case: c41_pyproject }],
        probe: Some(c41_probe),
        min_nontrivial: 300,
    }]
}
