//! C10: sorting by comment directives and schemas, against a reference sorter over a model of the document
use crate::engine::*;
use crate::ensure;
use crate::props::format::{comments, rules, show_rules, Com, Seq};
use crate::reftoml::{self, Ver};
use crate::tom;
use std::cmp::Ordering;
use tombi_config::FormatOptions;

#[derive(Clone, Copy, PartialEq, Debug)]
enum O {
    Asc,
    Desc,
    Version,
    Schema,
}
impl O {
    fn text(self) -> &'static str {
        match self {
            O::Asc => "ascending",
            O::Desc => "descending",
            O::Version => "version-sort",
            O::Schema => "schema",
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Props,
    Pattern,
    Additional,
}
#[derive(Clone, Debug)]
enum KeysOrder {
    All(O),
    Groups(Vec<(Kind, O)>),
}
/// patterns are a text, maybe anchored, `.` or a choice of these
fn matches(p: &str, k: &str) -> bool {
    p.split('|').any(|p| match (p.strip_prefix('^').unwrap_or(p), p.starts_with('^')) {
        (".", _) => !k.is_empty(),
        (t, start) => match (t.strip_suffix('$'), start) {
            (Some(t), true) => k == t,
            (Some(t), false) => k.ends_with(t),
            (None, true) => k.starts_with(t),
            (None, false) => k.contains(t),
        },
    })
}
/// a schema
#[derive(Clone, Debug)]
enum S {
    Any,
    Table { props: Vec<(String, S)>, pats: Vec<(String, S)>, add: Option<Box<S>>, order: Option<KeysOrder>, by: Option<String> },
    Arr { items: Option<Box<S>>, order: Option<O> },
}
fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
impl S {
    fn json(&self) -> String {
        match self {
            S::Any => "{}".into(),
            S::Table { props, pats, add, order, by } => {
                let mut f = vec!["\"type\": \"object\"".to_string()];
                if !props.is_empty() {
                    f.push(format!("\"properties\": {{{}}}", props.iter().map(|(k, s)| format!("{}: {}", q(k), s.json())).collect::<Vec<_>>().join(", ")));
                }
                if !pats.is_empty() {
                    f.push(format!("\"patternProperties\": {{{}}}", pats.iter().map(|(k, s)| format!("{}: {}", q(k), s.json())).collect::<Vec<_>>().join(", ")));
                }
                if let Some(s) = add {
                    f.push(format!("\"additionalProperties\": {}", s.json()));
                }
                match order {
                    Some(KeysOrder::All(o)) => f.push(format!("\"x-tombi-table-keys-order\": {}", q(o.text()))),
                    Some(KeysOrder::Groups(g)) => f.push(format!(
                        "\"x-tombi-table-keys-order\": {{{}}}",
                        g.iter()
                            .map(|(k, o)| {
                                let k = match k {
                                    Kind::Props => "properties",
                                    Kind::Pattern => "patternProperties",
                                    Kind::Additional => "additionalProperties",
                                };
                                format!("{}: {}", q(k), q(o.text()))
                            })
                            .collect::<Vec<_>>()
                            .join(", ")
                    )),
                    None => {}
                }
                if let Some(b) = by {
                    f.push(format!("\"x-tombi-array-values-order-by\": {}", q(b)));
                }
                format!("{{{}}}", f.join(", "))
            }
            S::Arr { items, order } => {
                let mut f = vec!["\"type\": \"array\"".to_string()];
                if let Some(s) = items {
                    f.push(format!("\"items\": {}", s.json()));
                }
                if let Some(o) = order {
                    f.push(format!("\"x-tombi-array-values-order\": {}", q(o.text())));
                }
                format!("{{{}}}", f.join(", "))
            }
        }
    }
    fn child(&self, k: &Acc) -> Option<&S> {
        match (self, k) {
            (S::Table { props, pats, add, .. }, Acc::Key(k)) => props
                .iter()
                .find(|p| p.0 == *k)
                .map(|p| &p.1)
                .or_else(|| pats.iter().find(|p| matches(&p.0, k)).map(|p| &p.1))
                .or(add.as_deref()),
            (S::Arr { items, .. }, Acc::Ix(_)) => items.as_deref(),
            _ => None,
        }
    }
    fn at(&self, path: &[Acc]) -> Option<&S> {
        path.iter().try_fold(self, |s, k| s.child(k))
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Acc {
    Key(String),
    Ix(usize),
}

// ---------------------------------------------------------------- the `[[schemas]]` entry of a configuration
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rule {
    Order(O),
    Enabled(bool),
}
impl Rule {
    fn toml(self) -> String {
        match self {
            Rule::Order(o) => q(o.text()),
            Rule::Enabled(b) => format!("{{ enabled = {b} }}"),
        }
    }
}
/// a step of a target: `None` is `*` or `[*]`
#[derive(Clone, PartialEq, Debug)]
enum Pat {
    Key(Option<String>),
    Ix(Option<usize>),
}
#[derive(Clone, Debug)]
struct Over {
    targets: Vec<Vec<Pat>>,
    tables: Option<Rule>,
    arrays: Option<Rule>,
}
#[derive(Clone, Default, Debug)]
struct Cfg {
    tables: Option<bool>,
    arrays: Option<bool>,
    overs: Vec<Over>,
    /// two overrides matched equally well
    unclear: std::cell::Cell<bool>,
    hits: std::cell::Cell<usize>,
}
impl Cfg {
    fn find(&self, path: &[Acc], rule: impl Fn(&Over) -> Option<Rule>) -> Option<Rule> {
        let mut best: Option<(usize, Rule)> = None;
        for o in &self.overs {
            let Some(r) = rule(o) else { continue };
            for t in &o.targets {
                let fits = t.len() == path.len()
                    && t.iter().zip(path).all(|x| match x {
                        (Pat::Key(k), Acc::Key(a)) => k.as_ref().is_none_or(|k| k == a),
                        (Pat::Ix(i), Acc::Ix(a)) => i.is_none_or(|i| i == *a),
                        _ => false,
                    });
                if !fits {
                    continue;
                }
                let exact = t.iter().filter(|p| !matches!(p, Pat::Key(None) | Pat::Ix(None))).count();
                match best {
                    Some((n, b)) if n == exact && b != r => self.unclear.set(true),
                    Some((n, _)) if n >= exact => {}
                    _ => best = Some((exact, r)),
                }
            }
        }
        if best.is_some() {
            self.hits.set(self.hits.get() + 1);
        }
        best.map(|b| b.1)
    }
    fn table(&self, path: &[Acc]) -> Option<Rule> {
        self.find(path, |o| o.tables)
    }
    fn array(&self, path: &[Acc]) -> Option<Rule> {
        self.find(path, |o| o.arrays)
    }
    fn toml(&self) -> String {
        let mut t = format!("[schema]\ncatalog.paths = []\n\n[[schemas]]\npath = \"{SCHEMA_URI}\"\ninclude = [\"*.toml\"]\n");
        for (name, on) in [("table-keys-order", self.tables), ("array-values-order", self.arrays)] {
            if let Some(on) = on {
                t += &format!("format.rules.{name}.enabled = {on}\n");
            }
        }
        for o in &self.overs {
            let targets: Vec<String> = o
                .targets
                .iter()
                .map(|t| {
                    let mut s = String::new();
                    for p in t {
                        match p {
                            Pat::Key(k) => {
                                if !s.is_empty() {
                                    s.push('.');
                                }
                                s += &match k {
                                    Some(k) if k.is_empty() || !k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') => q(k),
                                    Some(k) => k.clone(),
                                    None => "*".into(),
                                };
                            }
                            Pat::Ix(i) => s += &format!("[{}]", i.map_or("*".into(), |i| i.to_string())),
                        }
                    }
                    q(&s)
                })
                .collect();
            t += &format!("[[schemas.overrides]]\ntargets = [{}]\n", targets.join(", "));
            for (name, r) in [("table-keys-order", o.tables), ("array-values-order", o.arrays)] {
                if let Some(r) = r {
                    t += &format!("format.rules.{name} = {}\n", r.toml());
                }
            }
        }
        t
    }
}

// ---------------------------------------------------------------- the document
#[derive(Clone, Debug)]
struct Note {
    lead: Vec<String>,
    trail: Option<String>,
}
#[derive(Clone, Debug)]
struct Group<T> {
    /// comments of their own block before the group
    free: Option<String>,
    items: Vec<(T, Note)>,
}
#[derive(Clone, Debug)]
enum Val {
    Scalar(String),
    Arr(Arr),
    Inl(Inl),
}
#[derive(Clone, Debug)]
struct Arr {
    groups: Vec<Group<Val>>,
    inner: Option<String>,
    last_comma: bool,
    one_line: bool,
}
#[derive(Clone, Debug)]
struct Inl {
    groups: Vec<Group<Kv>>,
    inner: Option<String>,
    last_comma: bool,
    one_line: bool,
}
#[derive(Clone, Debug)]
struct Kv {
    key: Vec<String>,
    val: Val,
}
#[derive(Clone, Debug)]
struct Section {
    /// header and the path of its table
    head: Vec<String>,
    aot: bool,
    path: Vec<Acc>,
    note: Note,
    /// directive inside the body
    inner: Option<String>,
    groups: Vec<Group<Kv>>,
}
#[derive(Clone, Debug)]
struct DocM {
    top: Option<String>,
    groups: Vec<Group<Kv>>,
    sections: Vec<Section>,
}

fn key_text(k: &str) -> String {
    if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') { k.into() } else { q(k) }
}
fn keys_text(k: &[String]) -> String {
    k.iter().map(|k| key_text(k)).collect::<Vec<_>>().join(".")
}
/// items with their comments, separated by commas
fn list<T>(out: &mut String, open: char, close: char, groups: &[Group<T>], inner: &Option<String>, last_comma: bool, one_line: bool, put: impl Fn(&mut String, &T)) {
    let n: usize = groups.iter().map(|g| g.items.len()).sum();
    if one_line {
        out.push(open);
        for (i, (v, _)) in groups.iter().flat_map(|g| &g.items).enumerate() {
            if i > 0 {
                out.push_str(", ");
            }
            put(out, v);
        }
        if last_comma && n > 0 {
            out.push(',');
        }
        out.push(close);
        return;
    }
    out.push(open);
    if let Some(c) = inner {
        out.push_str(&format!(" {c}"));
    }
    out.push('\n');
    let mut i = 0;
    for (gi, g) in groups.iter().enumerate() {
        if gi > 0 {
            out.push('\n');
        }
        if let Some(c) = &g.free {
            out.push_str(&format!("  {c}\n\n"));
        }
        for (v, note) in &g.items {
            for c in &note.lead {
                out.push_str(&format!("  {c}\n"));
            }
            out.push_str("  ");
            put(out, v);
            i += 1;
            if i < n || last_comma {
                out.push(',');
            }
            if let Some(c) = &note.trail {
                out.push_str(&format!(" {c}"));
            }
            out.push('\n');
        }
    }
    out.push(close);
}
fn put_val(out: &mut String, v: &Val) {
    match v {
        Val::Scalar(s) => out.push_str(s),
        Val::Arr(a) => list(out, '[', ']', &a.groups, &a.inner, a.last_comma, a.one_line, put_val),
        Val::Inl(t) => list(out, '{', '}', &t.groups, &t.inner, t.last_comma, t.one_line, put_kv),
    }
}
fn put_kv(out: &mut String, kv: &Kv) {
    out.push_str(&keys_text(&kv.key));
    out.push_str(" = ");
    put_val(out, &kv.val);
}
fn put_groups(out: &mut String, groups: &[Group<Kv>]) {
    for (i, g) in groups.iter().enumerate() {
        if i > 0 {
            out.push('\n');
        }
        if let Some(c) = &g.free {
            out.push_str(&format!("{c}\n\n"));
        }
        for (kv, note) in &g.items {
            for c in &note.lead {
                out.push_str(&format!("{c}\n"));
            }
            put_kv(out, kv);
            if let Some(c) = &note.trail {
                out.push_str(&format!(" {c}"));
            }
            out.push('\n');
        }
    }
}
fn render(d: &DocM) -> String {
    let mut out = String::new();
    if let Some(c) = &d.top {
        out.push_str(&format!("{c}\n\n"));
    }
    put_groups(&mut out, &d.groups);
    for s in &d.sections {
        if !out.is_empty() && !out.ends_with("\n\n") {
            out.push('\n');
        }
        for c in &s.note.lead {
            out.push_str(&format!("{c}\n"));
        }
        let h = keys_text(&s.head);
        out.push_str(&if s.aot { format!("[[{h}]]") } else { format!("[{h}]") });
        if let Some(c) = &s.note.trail {
            out.push_str(&format!(" {c}"));
        }
        out.push('\n');
        if let Some(c) = &s.inner {
            out.push_str(&format!("{c}\n\n"));
        }
        put_groups(&mut out, &s.groups);
    }
    out
}

// ---------------------------------------------------------------- the reference sorter
/// what a directive says: Some(None) disables
type Dir = Option<Option<O>>;
const TABLE: &str = "# tombi: format.rules.table-keys-order";
const ARRAY: &str = "# tombi: format.rules.array-values-order";
fn directive_text(prefix: &str, d: Dir) -> Option<String> {
    Some(match d? {
        Some(o) => format!("{prefix} = \"{}\"", o.text()),
        None => format!("{prefix}.disabled = true"),
    })
}
fn read_directive<'a>(prefix: &str, comments: impl IntoIterator<Item = &'a String>) -> Dir {
    for c in comments {
        if c.starts_with(prefix) {
            for o in [O::Asc, O::Desc, O::Version] {
                if *c == format!("{prefix} = \"{}\"", o.text()) {
                    return Some(Some(o));
                }
            }
            return Some(None);
        }
    }
    None
}
fn key_cmp(o: O, a: &str, b: &str) -> Ordering {
    match o {
        O::Asc | O::Schema => a.cmp(b),
        O::Desc => b.cmp(a),
        O::Version => crate::props::pure::ref_version_cmp(a, b),
    }
}
type Target<T> = (Vec<Acc>, T);
fn sort_entries<T>(mut v: Vec<(Acc, Vec<Target<T>>)>, o: O, schema: Option<&S>) -> Vec<(Acc, Vec<Target<T>>)> {
    let name = |a: &Acc| match a {
        Acc::Key(k) => k.clone(),
        Acc::Ix(_) => unreachable!(),
    };
    if o == O::Schema {
        if let Some(S::Table { props, .. }) = schema {
            v.sort_by_key(|e| props.iter().position(|p| p.0 == name(&e.0)).unwrap_or(props.len()));
        }
        return v;
    }
    v.sort_by(|a, b| key_cmp(o, &name(&a.0), &name(&b.0)));
    v
}
/// groups items by their first key, sorts the groups, and goes on inside each
fn sort_targets<T>(schema: Option<&S>, path: &[Acc], targets: Vec<Target<T>>, order: Option<O>, over: &dyn Fn(&[Acc]) -> Dir, cfg: &Cfg) -> Vec<T> {
    let mut out = vec![];
    let mut groups: Vec<(Acc, Vec<Target<T>>)> = vec![];
    for (acc, t) in targets {
        match acc.first() {
            None => out.push(t),
            Some(a) => {
                let rest = acc[1..].to_vec();
                match groups.iter_mut().find(|g| g.0 == *a) {
                    Some(g) => g.1.push((rest, t)),
                    None => groups.push((a.clone(), vec![(rest, t)])),
                }
            }
        }
    }
    let is_table = groups.iter().all(|g| matches!(g.0, Acc::Key(_)));
    if is_table {
        let (over, entry) = (over(path), cfg.table(path));
        if over != Some(None) && entry != Some(Rule::Enabled(false)) {
            let forced = match entry {
                Some(Rule::Order(o)) => Some(o),
                _ => None,
            };
            match (over.flatten().or(order).or(forced), schema) {
                (Some(o), s) => groups = sort_entries(groups, o, s),
                (None, _) if entry.is_none() && cfg.tables == Some(false) => {}
                (None, Some(S::Table { order: Some(KeysOrder::All(o)), .. })) => groups = sort_entries(groups, *o, schema),
                (None, Some(S::Table { order: Some(KeysOrder::Groups(g)), props, pats, .. })) => groups = sort_by_groups(groups, g, props, pats, schema),
                _ => {}
            }
        }
    }
    for (a, ts) in groups {
        let sub = schema.and_then(|s| s.child(&a));
        let mut p = path.to_vec();
        p.push(a);
        out.extend(sort_targets(sub, &p, ts, order, over, cfg));
    }
    out
}
fn sort_by_groups<T>(entries: Vec<(Acc, Vec<Target<T>>)>, order: &[(Kind, O)], props: &[(String, S)], pats: &[(String, S)], schema: Option<&S>) -> Vec<(Acc, Vec<Target<T>>)> {
    let kind = |a: &Acc| {
        let Acc::Key(k) = a else { unreachable!() };
        if props.iter().any(|p| p.0 == *k) {
            Kind::Props
        } else if pats.iter().any(|p| matches(&p.0, k)) {
            Kind::Pattern
        } else {
            Kind::Additional
        }
    };
    // without a group for additional keys they follow the order of the first group
    let mut plan = order.to_vec();
    if !plan.iter().any(|g| g.0 == Kind::Additional) && plan[0].1 != O::Schema {
        let o = plan[0].1;
        if o == O::Desc { plan.push((Kind::Additional, o)) } else { plan.insert(0, (Kind::Additional, o)) }
    }
    // keys of the other groups stay where they are
    let slots: Vec<bool> = entries.iter().map(|e| plan.iter().any(|g| g.0 == kind(&e.0))).collect();
    let (mut sorted, mut fixed): (Vec<_>, Vec<_>) = entries.into_iter().partition(|e| plan.iter().any(|g| g.0 == kind(&e.0)));
    let mut done = vec![];
    for (k, o) in &plan {
        let (mine, rest) = sorted.into_iter().partition(|e: &(Acc, _)| kind(&e.0) == *k);
        sorted = rest;
        done.extend(sort_entries(mine, *o, schema));
    }
    let (mut d, mut f) = (done.into_iter(), fixed.drain(..));
    slots.iter().map(|s| if *s { d.next().unwrap() } else { f.next().unwrap() }).collect()
}
fn accs(keys: &[String]) -> Vec<Acc> {
    keys.iter().map(|k| Acc::Key(k.clone())).collect()
}
fn join(a: &[Acc], b: Vec<Acc>) -> Vec<Acc> {
    a.iter().cloned().chain(b).collect()
}
fn no_over(_: &[Acc]) -> Dir {
    None
}
/// sorts the groups of key-values of one table and everything in them
fn sort_table(schema: Option<&S>, path: &[Acc], groups: &mut [Group<Kv>], dir: Dir, cfg: &Cfg) {
    for g in groups {
        for (kv, note) in &mut g.items {
            let p = join(path, accs(&kv.key));
            let s = schema.and_then(|s| s.at(&accs(&kv.key)));
            sort_val(s, &p, &mut kv.val, Some(note), cfg);
        }
        if dir == Some(None) || cfg.table(path) == Some(Rule::Enabled(false)) {
            continue;
        }
        let ts = std::mem::take(&mut g.items).into_iter().map(|i| (accs(&i.0.key), i)).collect();
        g.items = sort_targets(schema, path, ts, dir.flatten(), &no_over, cfg);
    }
}
#[derive(Clone, PartialEq, PartialOrd, Debug)]
enum SortKey {
    Bool(bool),
    Int(i64),
    Str(String),
    /// kind and instant
    Dt(u8, i128),
}
fn sort_key(v: &Val, items: Option<&S>) -> Option<SortKey> {
    match v {
        Val::Scalar(s) => {
            let t = reftoml::parse_tbl(&format!("a = {s}"), Ver::V11).ok()?;
            Some(match &t[0].1 {
                reftoml::V::Bool(b) => SortKey::Bool(*b),
                reftoml::V::Int(i) => SortKey::Int(*i),
                reftoml::V::Str(s) => SortKey::Str(s.clone()),
                reftoml::V::Dt(d) => SortKey::Dt(
                    match (d.date.is_some(), d.time.is_some(), d.offset.is_some()) {
                        (true, true, true) => 0,
                        (true, true, false) => 1,
                        (true, false, _) => 2,
                        _ => 3,
                    },
                    {
                        // the instant, in nanoseconds
                        let (y, m, dd) = d.date.unwrap_or((0, 1, 1));
                        let (h, mi, s, ns) = d.time.unwrap_or((0, 0, 0, 0));
                        let leap = |y: i128| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
                        let y = y as i128;
                        let before = (1..m as usize).map(|m| [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30][m - 1]).sum::<i128>();
                        let days = (0..y).map(|y| if leap(y) { 366 } else { 365 }).sum::<i128>() + before + dd as i128;
                        let mins = days * 1440 + h as i128 * 60 + mi as i128 - d.offset.unwrap_or(0) as i128;
                        (mins * 60 + s as i128) * 1_000_000_000 + ns as i128
                    },
                ),
                _ => return None,
            })
        }
        Val::Inl(t) => {
            let Some(S::Table { by: Some(by), .. }) = items else { return None };
            let kvs: Vec<&Kv> = t.groups.iter().flat_map(|g| &g.items).map(|i| &i.0).collect();
            match &kvs.iter().find(|kv| kv.key == [by.clone()])?.val {
                v @ Val::Scalar(_) => sort_key(v, None),
                _ => None,
            }
        }
        Val::Arr(_) => None,
    }
}
fn same_kind(a: &SortKey, b: &SortKey) -> bool {
    match (a, b) {
        (SortKey::Dt(x, _), SortKey::Dt(y, _)) => x == y,
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}
fn sort_val(schema: Option<&S>, path: &[Acc], v: &mut Val, note: Option<&Note>, cfg: &Cfg) {
    let around: Vec<String> = note.map(|n| n.lead.iter().chain(&n.trail).cloned().collect()).unwrap_or_default();
    match v {
        Val::Scalar(_) => {}
        Val::Inl(t) => {
            let dir = read_directive(TABLE, around.iter().chain(&t.inner));
            sort_table(schema, path, &mut t.groups, dir, cfg);
        }
        Val::Arr(a) => {
            let items = schema.and_then(|s| s.child(&Acc::Ix(0)));
            let mut i = 0;
            for g in &mut a.groups {
                for (x, _) in &mut g.items {
                    let p = join(path, vec![Acc::Ix(i)]);
                    sort_val(items, &p, x, None, cfg);
                    i += 1;
                }
            }
            let dir = read_directive(ARRAY, around.iter().chain(&a.inner));
            let entry = cfg.array(path);
            if dir == Some(None) || entry == Some(Rule::Enabled(false)) {
                return;
            }
            let forced = match entry {
                Some(Rule::Order(o)) => Some(o),
                _ => None,
            };
            let Some(o) = dir.flatten().or(forced).or(match schema {
                Some(S::Arr { order, .. }) if entry.is_some() || cfg.arrays != Some(false) => *order,
                _ => None,
            }) else {
                return;
            };
            for g in &mut a.groups {
                let keys: Option<Vec<SortKey>> = g.items.iter().map(|(v, _)| sort_key(v, items)).collect();
                let Some(keys) = keys else { continue };
                if !keys.iter().all(|k| same_kind(k, &keys[0])) {
                    continue;
                }
                let mut z: Vec<(SortKey, (Val, Note))> = keys.into_iter().zip(std::mem::take(&mut g.items)).collect();
                z.sort_by(|a, b| match (o, &a.0, &b.0) {
                    (O::Version, SortKey::Str(x), SortKey::Str(y)) => crate::props::pure::ref_version_cmp(x, y),
                    (O::Desc, x, y) => y.partial_cmp(x).unwrap(),
                    (_, x, y) => x.partial_cmp(y).unwrap(),
                });
                g.items = z.into_iter().map(|x| x.1).collect();
            }
        }
    }
}
fn sort_doc(d: &DocM, schema: Option<&S>, cfg: &Cfg) -> DocM {
    let mut d = d.clone();
    let root = read_directive(TABLE, &d.top);
    sort_table(schema, &[], &mut d.groups, root, cfg);
    for s in &mut d.sections {
        let dir = section_directive(s);
        let sub = schema.and_then(|x| x.at(&s.path));
        sort_table(sub, &s.path, &mut s.groups, dir, cfg);
    }
    if root != Some(None) {
        let over: Vec<(Vec<Acc>, Dir)> = d.sections.iter().map(|s| (s.path.clone(), section_directive(s))).filter(|x| x.1.is_some()).collect();
        // nothing asks for an order: the headers stay where they are
        let asked = cfg.tables != Some(false) || root.is_some() || over.iter().any(|o| o.1 != Some(None)) || cfg.overs.iter().any(|o| o.tables.is_some_and(|r| r != Rule::Enabled(false)));
        if !asked {
            return d;
        }
        let find = move |p: &[Acc]| over.iter().rev().find(|x| x.0 == p).and_then(|x| x.1);
        let ts = std::mem::take(&mut d.sections).into_iter().map(|s| (s.path.clone(), s)).collect();
        d.sections = sort_targets(schema, &[], ts, root.flatten(), &find, cfg);
    }
    d
}
fn section_directive(s: &Section) -> Dir {
    read_directive(TABLE, s.note.lead.iter().chain(&s.note.trail).chain(&s.inner))
}

// ---------------------------------------------------------------- generation
struct Gen {
    n: usize,
    /// directives on tables and arrays, per mille
    directives: u32,
    comments: u32,
    v11: bool,
}
const KEYS: &[&str] = &["a", "b", "c", "k1", "k2", "k10", "k02", "B", "a-b", "a_b", "aa", "pa", "pb", "p1", "", "é", "z z", "1", "a.b", "v1.2", "v1.10"];
impl Gen {
    fn key(&self, src: &mut Src) -> String {
        src.pick(KEYS).to_string()
    }
    fn comment(&mut self) -> String {
        self.n += 1;
        format!("# c{}", self.n)
    }
    fn note(&mut self, src: &mut Src, one_line: bool) -> Note {
        let mut n = Note { lead: vec![], trail: None };
        if one_line {
            return n;
        }
        if src.chance(self.comments, 1000) {
            for _ in 0..src.usize(1, 2) {
                n.lead.push(self.comment());
            }
        }
        if src.chance(self.comments, 1000) {
            n.trail = Some(self.comment());
        }
        n
    }
    fn dir(&self, src: &mut Src) -> Dir {
        if !src.chance(self.directives, 1000) {
            return None;
        }
        if src.chance(1, 6) {
            return Some(None);
        }
        Some(Some(*src.pick(&[O::Asc, O::Desc, O::Version])))
    }
    /// splits into groups
    fn groups<T>(&mut self, src: &mut Src, mut items: Vec<(T, Note)>, one_line: bool) -> Vec<Group<T>> {
        let mut out = vec![];
        while !items.is_empty() {
            let n = if !one_line && src.chance(1, 4) { src.usize(1, items.len()) } else { items.len() };
            let rest = items.split_off(n);
            let free = (!one_line && !out.is_empty() && src.chance(1, 3)).then(|| self.comment());
            out.push(Group { free, items });
            items = rest;
        }
        out
    }
    /// paths of key-values, none a prefix of another
    fn paths(&self, src: &mut Src, max: usize, dotted: bool, taken: &[String]) -> Vec<Vec<String>> {
        let mut out: Vec<Vec<String>> = vec![];
        for _ in 0..src.usize(0, max) {
            let n = if dotted { 1 + src.weighted(&[6, 3, 1]) } else { 1 };
            let p: Vec<String> = (0..n).map(|_| self.key(src)).collect();
            if taken.contains(&p[0]) || out.iter().any(|o| o.starts_with(&p) || p.starts_with(o)) {
                continue;
            }
            out.push(p);
        }
        out
    }
    fn scalar(&self, src: &mut Src, kind: u32) -> String {
        match kind {
            0 => src.pick(&["true", "false"]).to_string(),
            1 => src.pick(&["0", "1", "-1", "10", "9", "0x0A", "0o7", "1_000", "0b11", "9223372036854775807", "-9223372036854775808", "+5"]).to_string(),
            2 => src
                .pick(&["\"a\"", "'b'", "\"B\"", "\"\"", "\"k10\"", "'k2'", "\"1.10.0\"", "\"1.9.0\"", "\"\\u0061b\"", "\"é\"", "\"\"\"c\"\"\"", "'''d'''", "\"serde>=1\"", "\"a-b\"", "\"z\\\"\""])
                .to_string(),
            3 => src.pick(&["2020-01-01T10:00:00Z", "2020-01-01T09:59:59Z", "2019-12-31T23:00:00Z", "2021-05-05T00:00:00Z", "2020-01-01T10:00:00.5Z", "2020-01-01T12:30:00+02:00", "2020-01-01T05:00:00-05:00", "2019-12-31T23:59:00-23:59", "2020-03-01T00:10:00+00:30", "2020-02-29T23:45:00Z", "2020-01-01T10:00:00.25-00:00"]).to_string(),
            4 => src.pick(&["2020-01-01T10:00:00", "2020-01-01 09:00:00", "2020-01-01T10:00:00.5", "2019-06-01T10:00:00.25"]).to_string(),
            5 => src.pick(&["2020-01-01", "1999-12-31", "2020-02-29", "0001-01-01"]).to_string(),
            6 => src.pick(&["10:00:00", "09:59:59", "10:00:00.5", "10:00:00.25", "00:00:00"]).to_string(),
            _ => src.pick(&["1.5", "inf", "-0.0", "1e3"]).to_string(),
        }
    }
    fn val(&mut self, src: &mut Src, depth: u32) -> Val {
        match if depth == 0 { 0 } else { src.weighted(&[5, 4, 3]) } {
            0 => {
                let k = src.below(8);
                Val::Scalar(self.scalar(src, k))
            }
            1 => {
                let one_line = src.chance(1, 3);
                let n = src.usize(0, 6);
                let kind = src.below(12);
                let items = (0..n)
                    .map(|_| {
                        let v = match kind {
                            0..=7 => {
                                let k = if src.chance(1, 25) { 7 } else { kind };
                                Val::Scalar(self.scalar(src, k))
                            }
                            8 | 9 => {
                                let one = one_line || src.chance(3, 4);
                                Val::Inl(self.inl(src, depth - 1, one))
                            }
                            10 => self.val(src, depth - 1),
                            _ => {
                                let k = if src.bool() { 1 } else { 2 };
                                Val::Scalar(self.scalar(src, k))
                            }
                        };
                        (v, self.note(src, one_line))
                    })
                    .collect();
                let groups = self.groups(src, items, one_line);
                let ng = groups.len();
                let inner = (!one_line && n > 0).then(|| directive_text(ARRAY, self.dir(src))).flatten();
                Val::Arr(Arr { groups, inner, last_comma: n > 0 && (ng > 1 || src.bool()), one_line })
            }
            _ => {
                let one = !self.v11 || src.bool();
                Val::Inl(self.inl(src, depth, one))
            }
        }
    }
    fn inl(&mut self, src: &mut Src, depth: u32, one_line: bool) -> Inl {
        let one_line = one_line || !self.v11;
        let mut items = vec![];
        for key in self.paths(src, 5, true, &[]) {
            let mut val = self.val(src, depth.saturating_sub(1));
            if one_line {
                flatten(&mut val, self.v11);
            }
            let mut note = self.note(src, one_line);
            if !one_line {
                self.kv_directive(src, &val, &mut note);
            }
            items.push((Kv { key, val }, note));
        }
        let n = items.len();
        let groups = self.groups(src, items, one_line);
        // without a comma at the end groups may be joined on one line (a known finding)
        let ng = groups.len();
        let inner = (!one_line && n > 0).then(|| directive_text(TABLE, self.dir(src))).flatten();
        Inl { groups, inner, last_comma: n > 0 && self.v11 && (ng > 1 || src.bool()), one_line }
    }
    /// a directive beside an array or inline table
    fn kv_directive(&mut self, src: &mut Src, val: &Val, note: &mut Note) {
        let d = match val {
            Val::Arr(a) if a.inner.is_none() => directive_text(ARRAY, self.dir(src)),
            Val::Inl(t) if t.inner.is_none() => directive_text(TABLE, self.dir(src)),
            _ => None,
        };
        if let Some(d) = d {
            if src.bool() { note.trail = Some(d) } else { note.lead.push(d) }
        }
    }
    fn body(&mut self, src: &mut Src, max: usize, taken: &[String]) -> Vec<Group<Kv>> {
        let mut items = vec![];
        for key in self.paths(src, max, true, taken) {
            let d = src.below(3);
            let val = self.val(src, d);
            let mut note = self.note(src, false);
            self.kv_directive(src, &val, &mut note);
            items.push((Kv { key, val }, note));
        }
        self.groups(src, items, false)
    }
    fn doc(&mut self, src: &mut Src) -> DocM {
        // the tables: a small forest in random order, so that the headers never redefine anything
        const H: &[&str] = &["t", "u", "v10", "v9", "T", "pt", "t2"];
        let mut sections: Vec<Section> = vec![];
        let mut heads: Vec<Vec<String>> = vec![];
        let mut aots: Vec<(Vec<Acc>, usize)> = vec![];
        for _ in 0..src.usize(0, 6) {
            let n = 1 + src.weighted(&[4, 3, 1]);
            let head: Vec<String> = (0..n).map(|_| src.pick(H).to_string()).collect();
            let mut path = vec![];
            let aot_of = |path: &[Acc], aots: &[(Vec<Acc>, usize)]| aots.iter().find(|a| a.0 == path).map(|a| a.1);
            for (i, k) in head.iter().enumerate() {
                path.push(Acc::Key(k.clone()));
                if i + 1 < n && let Some(c) = aot_of(&path, &aots) {
                    path.push(Acc::Ix(c - 1));
                }
            }
            let known = sections.iter().any(|s| s.path == path) || sections.iter().any(|s| s.path.starts_with(&path));
            let existing = aot_of(&path, &aots);
            let mut aot = src.chance(1, 3);
            if let Some(c) = existing {
                // a further element
                aot = true;
                aots.iter_mut().find(|a| a.0 == path).unwrap().1 += 1;
                path.push(Acc::Ix(c));
            } else if aot {
                if known {
                    continue;
                }
                aots.push((path.clone(), 1));
                path.push(Acc::Ix(0));
            } else if sections.iter().any(|s| s.path == path) {
                continue;
            }
            heads.push(head.clone());
            sections.push(Section { head, aot, path, note: Note { lead: vec![], trail: None }, inner: None, groups: vec![] });
        }
        let tops: Vec<String> = heads.iter().map(|h| h[0].clone()).collect();
        let root_max = src.usize(0, 8);
        let groups = self.body(src, root_max, &tops);
        for i in 0..sections.len() {
            // keys of the body are never those of sub-tables
            let subs: Vec<String> = heads.iter().filter(|h| h.len() > sections[i].head.len() && h.starts_with(&sections[i].head)).map(|h| h[sections[i].head.len()].clone()).collect();
            let max = src.usize(0, 6);
            sections[i].groups = self.body(src, max, &subs);
            sections[i].note = self.note(src, false);
            let d = directive_text(TABLE, self.dir(src));
            if let Some(d) = d {
                match src.below(3) {
                    0 => sections[i].note.lead.push(d),
                    1 => sections[i].note.trail = Some(d),
                    _ => sections[i].inner = Some(d),
                }
            }
        }
        let top = directive_text(TABLE, self.dir(src));
        DocM { top, groups, sections }
    }
    /// a schema for the document: along its values, with some detail left out or added
    fn schema(&mut self, src: &mut Src, t: &reftoml::Tbl, depth: u32) -> S {
        let mut props = vec![];
        let mut rest: Option<&reftoml::V> = None;
        let mut t: Vec<_> = t.iter().collect();
        src.shuffle(&mut t);
        for (k, v) in t {
            if src.chance(3, 4) {
                let s = self.schema_of(src, v, depth + 1);
                props.push((k.clone(), s));
            } else {
                rest = Some(v);
            }
        }
        if src.chance(1, 3) {
            let k = self.key(src);
            if !props.iter().any(|p: &(String, S)| p.0 == k) {
                let at = src.usize(0, props.len());
                props.insert(at, (k, S::Any));
            }
        }
        let pats = if src.chance(1, 3) { vec![(src.pick(&["^p", "^p", "p", "p$", "^p$", "^a|b", "a$|^p", ".", "2"]).to_string(), S::Any)] } else { vec![] };
        let add = match rest {
            Some(v) if src.chance(1, 2) => Some(Box::new(self.schema_of(src, v, depth + 1))),
            _ => None,
        };
        let o = |src: &mut Src| *src.pick(&[O::Asc, O::Desc, O::Version, O::Schema]);
        let order = match src.below(4) {
            0 => None,
            1 | 2 => Some(KeysOrder::All(o(src))),
            _ => {
                let mut kinds = vec![Kind::Props, Kind::Pattern, Kind::Additional];
                src.shuffle(&mut kinds);
                kinds.truncate(src.usize(1, 3));
                Some(KeysOrder::Groups(kinds.into_iter().map(|k| (k, if k == Kind::Props { o(src) } else { *src.pick(&[O::Asc, O::Desc, O::Version]) })).collect()))
            }
        };
        let by = if depth > 0 && !props.is_empty() && src.bool() { Some(src.pick(&props).0.clone()) } else { None };
        S::Table { props, pats, add, order, by }
    }
    fn schema_of(&mut self, src: &mut Src, v: &reftoml::V, depth: u32) -> S {
        match v {
            reftoml::V::Tbl(t) => self.schema(src, t, depth),
            reftoml::V::Arr(a) => {
                let items = a.first().map(|x| self.schema_of(src, x, depth));
                let items = if src.chance(5, 6) { items.map(Box::new) } else { None };
                let order = src.chance(2, 3).then(|| *src.pick(&[O::Asc, O::Desc, O::Version]));
                S::Arr { items, order }
            }
            _ => S::Any,
        }
    }
}
/// the paths of all tables and arrays
fn containers(t: &reftoml::Tbl, path: &mut Vec<Acc>, tables: &mut Vec<Vec<Acc>>, arrays: &mut Vec<Vec<Acc>>) {
    fn val(v: &reftoml::V, path: &mut Vec<Acc>, tables: &mut Vec<Vec<Acc>>, arrays: &mut Vec<Vec<Acc>>) {
        match v {
            reftoml::V::Tbl(t) => containers(t, path, tables, arrays),
            reftoml::V::Arr(a) => {
                arrays.push(path.clone());
                for (i, v) in a.iter().enumerate() {
                    path.push(Acc::Ix(i));
                    val(v, path, tables, arrays);
                    path.pop();
                }
            }
            _ => {}
        }
    }
    tables.push(path.clone());
    for (k, v) in t {
        path.push(Acc::Key(k.clone()));
        val(v, path, tables, arrays);
        path.pop();
    }
}
impl Gen {
    fn target(&self, src: &mut Src, path: &[Acc], m: &DocM) -> Vec<Pat> {
        (0..path.len())
            .map(|i| match &path[i] {
                Acc::Key(k) => {
                    Pat::Key((!k.contains('\n') && src.chance(4, 5)).then(|| k.clone()))
                }
                // the elements of arrays of tables keep their order
                Acc::Ix(n) => Pat::Ix((m.sections.iter().any(|s| s.path.starts_with(&path[..=i])) && src.bool()).then_some(*n)),
            })
            .collect()
    }
    fn cfg(&self, src: &mut Src, t: &reftoml::Tbl, m: &DocM) -> Cfg {
        let (mut tables, mut arrays) = (vec![], vec![]);
        containers(t, &mut vec![], &mut tables, &mut arrays);
        // directives do not meet disabled targets
        let quiet = self.directives == 0;
        let on = |src: &mut Src| *src.pick(&[None, None, Some(true), Some(false), Some(false)]);
        let mut c = Cfg { tables: on(src), arrays: on(src), ..Default::default() };
        for _ in 0..src.usize(1, 4) {
            let rule = |src: &mut Src, os: &[O]| match src.below(4) {
                0 => Rule::Enabled(true),
                1 if quiet => Rule::Enabled(false),
                _ => Rule::Order(*src.pick(os)),
            };
            let mut o = Over { targets: vec![], tables: None, arrays: None };
            let kind = src.weighted(&[5, 4, 2]);
            if kind != 1 {
                o.tables = Some(rule(src, &[O::Asc, O::Desc, O::Version, O::Schema]));
            }
            if kind != 0 {
                o.arrays = Some(rule(src, &[O::Asc, O::Desc, O::Version]));
            }
            for _ in 0..src.usize(1, 2) {
                let of = if kind == 1 || kind == 2 && src.bool() { &arrays } else { &tables };
                if !of.is_empty() {
                    let p = src.pick(of).clone();
                    o.targets.push(self.target(src, &p, m));
                }
            }
            if !o.targets.is_empty() {
                c.overs.push(o);
            }
        }
        c
    }
}
/// everything inside one line
fn flatten(v: &mut Val, v11: bool) {
    match v {
        Val::Scalar(s) => {
            if s.contains('\n') {
                *s = "1".into();
            }
        }
        Val::Arr(a) => {
            a.one_line = true;
            a.inner = None;
            let items: Vec<_> = std::mem::take(&mut a.groups).into_iter().flat_map(|g| g.items).collect();
            a.groups = if items.is_empty() { vec![] } else { vec![Group { free: None, items }] };
            for (v, n) in a.groups.iter_mut().flat_map(|g| &mut g.items) {
                *n = Note { lead: vec![], trail: None };
                flatten(v, v11);
            }
        }
        Val::Inl(t) => {
            t.one_line = true;
            t.inner = None;
            let items: Vec<_> = std::mem::take(&mut t.groups).into_iter().flat_map(|g| g.items).collect();
            t.groups = if items.is_empty() { vec![] } else { vec![Group { free: None, items }] };
            for (kv, n) in t.groups.iter_mut().flat_map(|g| &mut g.items) {
                *n = Note { lead: vec![], trail: None };
                flatten(&mut kv.val, v11);
            }
        }
    }
}

// ---------------------------------------------------------------- the check
const SCHEMA_URI: &str = "https://vt.invalid/schema.json";
fn case(src: &mut Src, ctx: &mut Ctx, with_schema: bool, with_config: bool) -> CaseResult {
    let directives = if with_schema { *src.pick(&[0, 0, 150]) } else { *src.pick(&[150, 400, 700]) };
    let v11 = src.chance(2, 3);
    let mut g = Gen { n: 0, directives, comments: *src.pick(&[0, 100, 350]), v11 };
    let ver = if v11 { Ver::V11 } else { Ver::V10 };
    let m = g.doc(src);
    let doc = render(&m);
    let parsed = match reftoml::parse(&doc, ver) {
        Ok(d) => d,
        Err(_) => {
            ctx.label("not generated: invalid");
            return Ok(());
        }
    };
    let schema = with_schema.then(|| g.schema(src, &parsed.root, 0));
    let schema = if with_config && src.chance(1, 4) { Some(S::Table { props: vec![], pats: vec![], add: None, order: None, by: None }) } else { schema };
    let cfg = if with_config { g.cfg(src, &parsed.root, &m) } else { Cfg::default() };
    let r = if src.chance(1, 3) { rules(src) } else { Default::default() };
    ctx.attach("doc.toml", &doc);
    ctx.attach("rules.json", &show_rules(&r));
    ctx.attach("version", ver.text());
    let opts = FormatOptions { rules: Some(r) };
    let want_m = sort_doc(&m, schema.as_ref(), &cfg);
    if cfg.unclear.get() {
        ctx.label("left open: two overrides match equally well");
        return Ok(());
    }
    ctx.label_if(cfg.hits.get() > 0, "an override of the configuration applies");
    let want = render(&want_m);
    let headers = m.sections.iter().zip(&want_m.sections).any(|(a, b)| a.path != b.path);
    check(ctx, &doc, &want, ver, schema.as_ref().map(|s| s.json()), with_config.then(|| cfg.toml()), &opts, headers)
}
/// formatting orders the document like the wanted one
fn check(ctx: &mut Ctx, doc: &str, want: &str, ver: Ver, schema: Option<String>, config: Option<String>, opts: &FormatOptions, headers: bool) -> CaseResult {
    let store = match &schema {
        Some(s) => {
            ctx.attach("schema.json", s);
            match &config {
                Some(c) => {
                    ctx.attach("tombi.toml", c);
                    let at = std::path::Path::new("/vt/tombi.toml");
                    let config = match serde_tombi::config::from_str(c, at) {
                        Ok(c) => c,
                        Err(e) => return fail("config-refused", format!("a valid configuration is refused: {e:?}")),
                    };
                    let store = tom::mem_store(&[(SCHEMA_URI, s)], Default::default());
                    if let Err(e) = ctx.block_on(store.load_config(&config, Some(at))) {
                        return fail("config-refused", format!("the configuration is not loaded: {e:?}"));
                    }
                    store
                }
                None => tom::store_with_schemas(ctx, &[(SCHEMA_URI, s)]),
            }
        }
        None => tom::store(),
    };
    let path = std::path::Path::new("/vt/doc.toml");
    let fmt = |ctx: &Ctx, doc: &str| tom::format_with(ctx, doc, ver, opts, Some(path), &store).map_err(|d| tom::show_diags(&d));
    let out = match guarded(|| Ok(fmt(ctx, doc)))? {
        Ok(o) => o,
        Err(e) => return fail("refused", format!("a valid document is not formatted: {e}")),
    };
    let Ok(wd) = reftoml::parse(want, ver) else { return fail("model", "the expected document is not valid").with("want.toml", want) };
    let r = |sig: &str, msg: String| fail(sig, msg).with("out.toml", &out).with("want.toml", want);
    let Ok(od) = reftoml::parse(&out, ver) else { return r("invalid-output", "the output is not valid TOML".into()) };
    let changed = doc != want;
    if changed {
        ctx.nontrivial(&doc);
        ctx.sample(format!("{doc}--- schema: {}", schema.unwrap_or_default()));
    }
    ctx.label_if(changed, "order changes");
    ctx.label_if(headers, "headers reordered");
    let (ca, sa) = comments(want, &wd, ver);
    let (cb, sb) = comments(&out, &od, ver);
    let show = |c: &[Com], x: Option<&Seq>| match x {
        // directives are formatted themselves
        Some(Seq::Com(n)) => format!("comment {:?}", if c[*n].text.starts_with("tombi:") { c[*n].text.replace('\'', "\"").replace(' ', "") } else { c[*n].text.clone() }),
        Some(Seq::Tok(t)) => t.clone(),
        None => "the end".into(),
    };
    for n in 0..sa.len().max(sb.len()) {
        let (x, y) = (show(&ca, sa.get(n)), show(&cb, sb.get(n)));
        if x != y {
            return r("order", format!("token {n} should be {x} but is {y}"));
        }
    }
    for (x, y) in ca.iter().zip(&cb) {
        ensure!(x.trailing_of == y.trailing_of, "comment-trailing", "{x:?} should be kept, became {y:?}\n{out}");
        if x.above != y.above && x.above.is_some() {
            return r("comment-above", format!("{x:?} should be kept, became {y:?}"));
        }
    }
    // the result does not depend on the order before, and stays
    for (what, doc, same) in [("sorted", want, false), ("formatted", out.as_str(), true)] {
        match guarded(|| Ok(fmt(ctx, doc)))? {
            Ok(o) => {
                let differs = || r(&format!("{what}-differs"), format!("formatting the {what} document gives another result")).with("again.toml", &o);
                if same && o != out {
                    return differs();
                }
                let Ok(d) = reftoml::parse(&o, ver) else { return r("invalid-output", "the second output is not valid TOML".into()) };
                let (c, s) = comments(&o, &d, ver);
                if s.len() != sb.len() || s.iter().zip(&sb).any(|(x, y)| show(&c, Some(x)) != show(&cb, Some(y))) {
                    return differs();
                }
            }
            Err(e) => return r("refused", format!("the {what} document is not formatted: {e}")),
        }
    }
    Ok(())
}
fn c10_probe(j: &serde_json::Value, ctx: &mut Ctx) -> CaseResult {
    let t = |k: &str| j[k].as_str().unwrap_or_default();
    let ver = if t("version") == "v1.0.0" { Ver::V10 } else { Ver::V11 };
    check(ctx, t("doc"), t("want"), ver, j["schema"].as_str().map(|s| s.to_string()), j["config"].as_str().map(|s| s.to_string()), &FormatOptions { rules: None }, false)
}
fn c10_directives(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    case(src, ctx, false, false)
}
fn c10_schema(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    case(src, ctx, true, false)
}
fn c10_config(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    case(src, ctx, true, true)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C10",
        rule: "the requested order differs from the order in the document",
        assumptions: &["Strings are ordered by code point, date-times by instant; under version-sort numbers and date-times sort as under ascending"],
        streams: vec![
            Stream { name: "directives", quick: 30_000, thorough: 2_000_000, case: c10_directives },
            Stream { name: "schema", quick: 20_000, thorough: 1_500_000, case: c10_schema },
            Stream { name: "config", quick: 20_000, thorough: 1_500_000, case: c10_config },
        ],
        probe: Some(c10_probe),
        min_nontrivial: 300,
    }]
}
