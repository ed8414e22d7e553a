//! C33: order lint rules; C13: rule settings; C12: strict mode.
use crate::engine::*;
use crate::ensure;
use crate::reftoml::Ver;
use crate::tom;
use std::collections::{BTreeMap, BTreeSet};
use tombi_diagnostic::{Diagnostic, Level};

// ---------------------------------------------------------------- C33
const DOTTED: &str = "dotted-keys-out-of-order";
const TABLES: &str = "tables-out-of-order";

/// An item a rule may report: where its key (header) starts and where its value (header) ends
#[derive(Clone, Debug)]
struct Item {
    rule: &'static str,
    start: (u32, u32),
    end: (u32, u32),
    /// the group is interrupted
    late: bool,
    /// disabled by a directive
    off: bool,
}
#[derive(Default)]
struct Out {
    text: String,
    line: u32,
    col: u32,
}
impl Out {
    fn push(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        self.text.push_str(s);
    }
    fn at(&self) -> (u32, u32) {
        (self.line, self.col)
    }
}
const PREFIX: [&str; 7] = ["a", "ab", "b", "a b", "é", "1", "a.b"];
fn spell(src: &mut Src, k: &str) -> String {
    let bare = k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-');
    match src.weighted(&[4, 2, 2, 2]) {
        0 if bare => k.to_string(),
        0 | 1 => format!("\"{k}\""),
        2 => format!("'{k}'"),
        _ => {
            let n = src.usize(0, k.chars().count() - 1);
            let s: String = k.chars().enumerate().map(|(i, c)| if i == n { if src.bool() { format!("\\u{:04x}", c as u32) } else { format!("\\U{:08X}", c as u32) } } else { c.to_string() }).collect();
            format!("\"{s}\"")
        }
    }
}
struct Gen {
    out: Out,
    items: Vec<Item>,
    next: u32,
    ver: Ver,
    /// write directives that disable the rules
    directives: bool,
    directives_written: u32,
}
const OFF_DOTTED: [&str; 3] = [
    "# tombi: lint.rules.dotted-keys-out-of-order.disabled = true",
    "# tombi: format.rules.table-keys-order.disabled = true",
    "# tombi: lint.rules = { dotted-keys-out-of-order = { disabled = true } }",
];
impl Gen {
    fn fresh(&mut self) -> String {
        self.next += 1;
        format!("n{}", self.next)
    }
    /// Writes key-values; `inline` puts them on one line separated by commas
    fn body(&mut self, src: &mut Src, n: usize, inline: bool, depth: u32, names: &[&str], off: bool) {
        let mut keys: Vec<(String, usize)> = Vec::new(); // first key, index in items
        for i in 0..n {
            if inline {
                self.out.push(if i > 0 { ", " } else { "" });
            } else if src.chance(1, 5) {
                let c = if src.bool() { "# comment\n" } else { "\n" };
                self.out.push(c);
            }
            let place = if self.directives && !inline { src.weighted(&[8, 1, 1]) } else { 0 };
            let directive = *src.pick(&OFF_DOTTED);
            if place == 1 {
                self.out.push(&format!("{directive}\n"));
            }
            let start = self.out.at();
            let first = if src.chance(3, 4) {
                // runs of one key are as likely as changes
                let k = match keys.last() {
                    Some((k, _)) if src.bool() && names.contains(&k.as_str()) => k.clone(),
                    _ => src.pick(names).to_string(),
                };
                let (s, leaf) = (spell(src, &k), self.fresh());
                let dot = *src.pick(&[".", " . "]);
                self.out.push(&format!("{s}{dot}{leaf}"));
                k
            } else {
                let leaf = self.fresh();
                self.out.push(&leaf);
                leaf
            };
            self.out.push(" = ");
            keys.push((first, self.items.len()));
            self.items.push(Item { rule: DOTTED, start, end: start, late: false, off });
            self.value(src, depth, place > 0);
            let at = keys.last().unwrap().1;
            self.items[at].end = self.out.at();
            if place == 2 {
                self.out.push(&format!(" {directive}\n"));
            } else if !inline {
                let c = if src.chance(1, 6) { " # trailing\n" } else { "\n" };
                self.out.push(c);
            }
        }
        for (i, (k, at)) in keys.iter().enumerate() {
            let at_all: Vec<usize> = (0..n).filter(|j| keys[*j].0 == *k).collect();
            self.items[*at].late = at_all.last().unwrap() - at_all[0] + 1 != at_all.len();
            let _ = i;
        }
    }
    /// A value; with a directive it is an inline table
    fn value(&mut self, src: &mut Src, depth: u32, directive: bool) {
        match if directive { 1 } else if depth == 0 { 0 } else { src.weighted(&[6, 2, 2]) } {
            0 => self.out.push("1"),
            1 => {
                self.out.push("{ ");
                let n = src.usize(0, 5);
                self.directives_written += directive as u32;
                self.body(src, n, true, depth.saturating_sub(1), &["a", "ab", "b"], directive);
                self.out.push(" }");
            }
            _ => {
                let sep = if src.bool() { ",\n  " } else { ", " };
                self.out.push("[");
                for i in 0..src.usize(0, 3) {
                    if i > 0 {
                        self.out.push(sep);
                    }
                    self.value(src, depth - 1, false);
                }
                self.out.push("]");
            }
        }
    }
}
fn generate(src: &mut Src, ver: Ver, directives: bool, first: &str) -> Gen {
    let mut g = Gen { out: Out::default(), items: vec![], next: 0, ver, directives, directives_written: 0 };
    let (mut off_dotted, mut off_tables) = (false, false);
    if directives && src.chance(1, 3) {
        match src.below(3) {
            0 => {
                g.out.push(&format!("{}\n", OFF_DOTTED[0]));
                off_dotted = true;
            }
            1 => {
                g.out.push("# tombi: lint.rules.tables-out-of-order.disabled = true\n");
                off_tables = true;
            }
            _ => {
                g.out.push(&format!("{}\n", OFF_DOTTED[1]));
                (off_dotted, off_tables) = (true, true);
            }
        }
        g.out.push("\n");
        g.directives_written += 1;
    }
    g.out.push(first);
    // keys of the root and of headers are different, so the document is valid
    let n = src.usize(0, 6);
    g.body(src, n, false, 2, &["r", "r1", "é r"], off_dotted);
    let mut prefixes: Vec<(String, usize)> = vec![];
    let used: BTreeSet<usize> = (0..src.usize(1, 4)).map(|_| src.usize(0, PREFIX.len() - 1)).collect();
    let used: Vec<&str> = used.iter().map(|i| PREFIX[*i]).collect();
    for _ in 0..src.usize(0, 7) {
        match src.below(6) {
            0 => g.out.push("\n"),
            1 => g.out.push("\n# comment\n"),
            2 => g.out.push("# comment\n\n"),
            _ => (),
        }
        let k = match prefixes.last() {
            Some((k, _)) if src.bool() => k.clone(),
            _ => src.pick(&used).to_string(),
        };
        let (s, leaf) = (spell(src, &k), g.fresh());
        let place = if directives { src.weighted(&[4, 1, 1]) } else { 0 };
        let directive = *src.pick(&OFF_DOTTED);
        if place == 1 {
            // directly above the header, and not at the top of the document
            g.out.push(&format!("\n{directive}\n"));
        }
        g.directives_written += (place > 0) as u32;
        let start = g.out.at();
        let h = if src.bool() { format!("[{s}.{leaf}]") } else { format!("[[ {s} . {leaf} ]]") };
        g.out.push(&h);
        prefixes.push((k, g.items.len()));
        let end = g.out.at();
        g.items.push(Item { rule: TABLES, start, end, late: false, off: off_tables });
        g.out.push(if place == 2 { " " } else { "" });
        g.out.push(if place == 2 { directive } else { "" });
        g.out.push("\n");
        let n = src.usize(0, 4);
        g.body(src, n, false, 2, &["a", "b", "ab"], place > 0);
    }
    for (k, at) in &prefixes {
        let all: Vec<usize> = (0..prefixes.len()).filter(|j| prefixes[*j].0 == *k).collect();
        g.items[*at].late = all.last().unwrap() - all[0] + 1 != all.len();
    }
    g
}
fn pos(p: tombi_text::Position) -> (u32, u32) {
    (p.line, p.column)
}
/// Which item a diagnostic is about: the largest one of its rule inside its range, or the first
/// table header in it
fn item_of(items: &[Item], d: &Diagnostic) -> Option<usize> {
    let (s, e) = (pos(d.range().start), pos(d.range().end));
    let inside = (0..items.len()).filter(|i| items[*i].rule == d.code() && s <= items[*i].start && items[*i].end <= e);
    if d.code() == TABLES { inside.min_by_key(|i| items[*i].start) } else { inside.max_by_key(|i| (std::cmp::Reverse(items[*i].start), items[*i].end)) }
}
fn c33_docs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ver = if src.bool() { Ver::V11 } else { Ver::V10 };
    let g = generate(src, ver, false, "");
    let doc = &g.out.text;
    ctx.attach("doc.toml", doc);
    if let Err(e) = crate::reftoml::parse_tbl(doc, g.ver) {
        return fail("generator", format!("{e:?}\n{doc}"));
    }
    let late = g.items.iter().filter(|i| i.late).count();
    if late > 0 {
        ctx.nontrivial(doc);
        ctx.label("out of order");
    } else if g.items.len() > 1 {
        ctx.label("in order");
    }
    ctx.sample(doc.as_str());
    let diags = tom::lint(ctx, doc, g.ver);
    let mut seen = BTreeSet::new();
    for d in &diags {
        ensure!(d.code() == DOTTED || d.code() == TABLES, "unexpected", "unexpected diagnostic {:?} in\n{doc}", d);
        ensure!(d.level() == Level::WARNING, "level", "a rule that warns by default reports {d:?}");
        let Some(i) = item_of(&g.items, d) else { return fail("no-item", format!("{d:?} is not about any key or table")) };
        ensure!(g.items[i].late, format!("extra:{}", d.code()), "reported, but its group is contiguous: {d:?}");
        ensure!(seen.insert(i), "twice", "the item at {:?} is reported twice: {d:?}", g.items[i].start);
    }
    if let Some(i) = (0..g.items.len()).find(|i| g.items[*i].late && !seen.contains(i)) {
        return fail(format!("missed:{}", g.items[i].rule), format!("{:?} is out of order, but not reported:\n{}", g.items[i], tom::show_diags(&diags)));
    }
    Ok(())
}


// ---------------------------------------------------------------- C13
fn c13_levels(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use tombi_severity_level::{SeverityLevel, SeverityLevelDefaultWarn};
    let (empty, wrong) = (src.bool(), src.bool());
    let first = format!("{}{}", if wrong { "zz = 1\n" } else { "" }, if empty { "\"\" = 1\n" } else { "" });
    let g = generate(src, Ver::V10, true, &first);
    let empty_line = g.out.text.lines().position(|l| l.starts_with("\"\" =")).unwrap_or(0) as u32;
    let doc = &g.out.text;
    let level = |src: &mut Src| *src.pick(&[None, Some(SeverityLevel::Off), Some(SeverityLevel::Warn), Some(SeverityLevel::Error)]);
    let (le, ld, lt) = (level(src), level(src), level(src));
    let opt = |l: Option<SeverityLevel>| l.map(|l| match l {
        SeverityLevel::Off => SeverityLevelDefaultWarn::from(SeverityLevel::Off),
        l => SeverityLevelDefaultWarn::from(l),
    });
    let rules = tombi_config::LintRules { key_empty: opt(le), dotted_keys_out_of_order: opt(ld), tables_out_of_order: opt(lt) };
    let opts = tombi_config::LintOptions { rules: Some(rules) };
    ctx.attach("doc.toml", doc);
    ctx.attach("options", &format!("{opts:?}"));
    if let Err(e) = crate::reftoml::parse_tbl(doc, g.ver) {
        return fail("generator", format!("{e:?}\n{doc}"));
    }
    let want_level = |l: Option<SeverityLevel>| match l {
        None | Some(SeverityLevel::Warn) => Some(Level::WARNING),
        Some(SeverityLevel::Off) => None,
        Some(SeverityLevel::Error) => Some(Level::ERROR),
    };
    if g.items.iter().any(|i| i.late) && ([le, ld, lt].iter().any(Option::is_some) || g.directives_written > 0) {
        ctx.nontrivial(&(doc, format!("{opts:?}")));
    }
    ctx.label_if(g.items.iter().any(|i| i.late && i.off), "disabled");
    ctx.label_if(wrong, "schema violation");
    ctx.sample(format!("{opts:?}\n{doc}"));
    let store = tom::store_with_schemas(ctx, &[("https://x.test/s.json", "{\"type\":\"object\",\"properties\":{\"zz\":{\"type\":\"string\"}},\"additionalProperties\":true}")]);
    let diags = tom::lint_with(ctx, doc, g.ver, &opts, Some(std::path::Path::new("/vt/doc.toml")), &store);
    let mut seen = BTreeSet::new();
    let (mut seen_empty, mut seen_wrong) = (0, 0);
    for d in &diags {
        let code = d.code();
        if code == DOTTED || code == TABLES {
            let Some(i) = item_of(&g.items, d) else { return fail("no-item", format!("{d:?} is not about any key or table")) };
            ensure!(g.items[i].late, format!("extra:{code}"), "reported, but its group is contiguous: {d:?}");
            ensure!(!g.items[i].off, format!("not-disabled:{code}"), "reported, but a directive disables the rule here: {d:?}");
            let want = want_level(if code == DOTTED { ld } else { lt });
            ensure!(want == Some(d.level()), format!("level:{code}"), "level {:?} expected (none: off): {d:?}", want);
            ensure!(seen.insert(i), "twice", "the item at {:?} is reported twice: {d:?}", g.items[i].start);
        } else if code == "key-empty" {
            ensure!(want_level(le) == Some(d.level()) && d.range().start.line == empty_line, "level:key-empty", "level {:?} in line {empty_line} expected: {d:?}", want_level(le));
            seen_empty += 1;
        } else if code == "type-mismatch" {
            ensure!(d.level() == Level::ERROR, "level:type-mismatch", "{d:?}");
            seen_wrong += 1;
        } else {
            return fail("unexpected", format!("{d:?}"));
        }
    }
    if let Some(i) = (0..g.items.len()).find(|i| {
        let it = &g.items[*i];
        it.late && !it.off && want_level(if it.rule == DOTTED { ld } else { lt }).is_some() && !seen.contains(i)
    }) {
        return fail(format!("missed:{}", g.items[i].rule), format!("{:?} is out of order, but not reported:\n{}", g.items[i], tom::show_diags(&diags)));
    }
    ensure!(seen_empty == (empty && want_level(le).is_some()) as usize, "count:key-empty", "the empty key is reported {seen_empty} times:\n{}", tom::show_diags(&diags));
    ensure!(seen_wrong == wrong as usize, "count:type-mismatch", "the type mismatch is reported {seen_wrong} times:\n{}", tom::show_diags(&diags));
    Ok(())
}

/// A value, its schema, the rules its directives may name, and the ones it breaks
struct Val {
    schema: serde_json::Value,
    text: String,
    rules: Vec<&'static str>,
    broken: Vec<&'static str>,
    deprecated: bool,
    /// in the branch of an applicator
    wrapped: bool,
}
/// The rules of every value. That an unused `type-mismatch`, and an unused `const-value` or `enum`
/// of a schema with a const or enum, is not reported is a listed finding.
const COMMON: [&str; 3] = ["const-value", "enum", "deprecated"];
fn ints(src: &mut Src, kind: &str, v: f64, num: &dyn Fn(i64) -> serde_json::Value) -> (serde_json::Map<String, serde_json::Value>, Vec<&'static str>, Vec<&'static str>) {
    let all: Vec<&'static str> = match kind {
        "integer" => vec!["integer-maximum", "integer-minimum", "integer-exclusive-maximum", "integer-exclusive-minimum", "integer-multiple-of"],
        _ => vec!["float-maximum", "float-minimum", "float-exclusive-maximum", "float-exclusive-minimum", "float-multiple-of"],
    };
    let (mut s, mut broken) = (serde_json::Map::new(), vec![]);
    for (i, k) in ["maximum", "minimum", "exclusiveMaximum", "exclusiveMinimum", "multipleOf"].iter().enumerate() {
        if src.chance(1, 3) {
            let m = if i == 4 { src.range(1, 3) } else { src.range(-3, 3) };
            s.insert(k.to_string(), num(m));
            let m = m as f64;
            let ok = [v <= m, v >= m, v < m, v > m, v % m == 0.0][i];
            if !ok {
                broken.push(all[i]);
            }
        }
    }
    (s, all, broken)
}
fn scalar(src: &mut Src) -> Val {
    use serde_json::json;
    let kind = *src.pick(&["integer", "string", "float", "boolean"]);
    let (mut s, mut rules, mut broken, text, value, other);
    match kind {
        "integer" => {
            let v = src.range(-4, 4);
            (s, rules, broken) = ints(src, kind, v as f64, &|m| json!(m));
            (text, value, other) = (v.to_string(), json!(v), json!(99));
        }
        "float" => {
            let v = src.range(-4, 4) as f64 + if src.bool() { 0.5 } else { 0.0 };
            (s, rules, broken) = ints(src, kind, v, &|m| json!(m as f64));
            (text, value, other) = (format!("{v:?}"), json!(v), json!(99.5));
        }
        "string" => {
            let v = *src.pick(&["", "a", "ab", "abc", "é", "a@b.c"]);
            rules = vec!["string-max-length", "string-min-length", "string-pattern", "string-format"];
            (s, broken) = (serde_json::Map::new(), vec![]);
            let n = v.chars().count() as i64;
            if src.chance(1, 3) {
                let m = src.range(0, 4);
                s.insert("maxLength".into(), json!(m));
                if n > m {
                    broken.push(rules[0]);
                }
            }
            if src.chance(1, 3) {
                let m = src.range(0, 4);
                s.insert("minLength".into(), json!(m));
                if n < m {
                    broken.push(rules[1]);
                }
            }
            if src.chance(1, 3) {
                s.insert("pattern".into(), json!("^a"));
                if !v.starts_with('a') {
                    broken.push(rules[2]);
                }
            }
            // whether an empty text has a format is left open
            if !v.is_empty() && src.chance(1, 3) {
                s.insert("format".into(), json!("email"));
                if v != "a@b.c" {
                    broken.push(rules[3]);
                }
            }
            (text, value, other) = (format!("\"{v}\""), json!(v), json!("other"));
        }
        _ => {
            let v = src.bool();
            (s, rules, broken) = (serde_json::Map::new(), vec![], vec![]);
            (text, value, other) = (v.to_string(), json!(v), json!(!v));
        }
    }
    s.insert("type".into(), kind.into());
    rules.extend(COMMON);
    match src.weighted(&[6, 1, 1, 1, 1, 1]) {
        1 => {
            s.insert("const".into(), value);
            rules.retain(|r| *r != "const-value");
        }
        2 => {
            s.insert("const".into(), other);
            broken.push("const-value");
        }
        3 => {
            s.insert("enum".into(), json!([value, other]));
            rules.retain(|r| *r != "enum");
        }
        4 => {
            s.insert("enum".into(), json!([other]));
            broken.push("enum");
        }
        5 => {
            let t = if kind == "boolean" { "string" } else { "boolean" };
            s = json!({"type": t}).as_object().unwrap().clone();
            broken = vec!["type-mismatch"];
            rules.clear();
        }
        _ => (),
    }
    let deprecated = src.chance(1, 6);
    let mut wrapped = false;
    if broken.is_empty() && src.chance(1, 4) {
        // a single branch of an applicator decides as it does alone
        s.insert("type".into(), s["type"].clone());
        let inner = std::mem::take(&mut s);
        s.insert((*src.pick(&["anyOf", "oneOf", "allOf"])).into(), serde_json::json!([inner]));
        wrapped = true;
    }
    if deprecated {
        s.insert("deprecated".into(), true.into());
    }
    Val { schema: s.into(), text, rules, broken, deprecated, wrapped }
}
/// The reported (line, code), given what directives name at which line
fn expect(v: &Val, line: u32, disabled: &[(&'static str, u32)], want: &mut BTreeMap<(u32, String), u32>, open: &mut BTreeSet<u32>) {
    let off = |r: &str| disabled.iter().any(|(d, _)| *d == r);
    let mut any = false;
    for r in &v.broken {
        if !off(r) {
            let code = if *r == "const-value" { "const" } else { r };
            *want.entry((line, code.into())).or_default() += 1;
            any = true;
        }
    }
    if off("unused-noqa") {
        // nothing unused is reported
    } else {
        for (r, at) in disabled {
            if !v.broken.contains(r) && *r != "deprecated" {
                *want.entry((*at, "unused-noqa".into())).or_default() += 1;
                any = true;
            }
        }
    }
    if v.wrapped && off("deprecated") {
        // the branch is not deprecated, or the applicator is not: whether this is unused is left open
        open.insert(line);
        open.extend(disabled.iter().filter(|d| d.0 == "deprecated").map(|d| d.1));
        return;
    }
    // whether a value that breaks a rule is reported as deprecated, too, is left open
    if any || !v.broken.is_empty() {
        open.insert(line);
        open.extend(disabled.iter().filter(|d| d.0 == "deprecated").map(|d| d.1));
        return;
    }
    if v.deprecated && !off("deprecated") {
        *want.entry((line, "deprecated".into())).or_default() += 1;
    }
    if !v.deprecated && off("deprecated") && !off("unused-noqa") {
        let at = disabled.iter().find(|d| d.0 == "deprecated").unwrap().1;
        *want.entry((at, "unused-noqa".into())).or_default() += 1;
    }
}
/// Directives before or after the line to come; gives what to write before and after
fn directives(src: &mut Src, v: &Val, line: &mut u32) -> (String, String, Vec<(&'static str, u32)>) {
    let (mut before, mut after, mut disabled) = (String::new(), String::new(), vec![]);
    let mut rules: Vec<&'static str> = v.rules.clone();
    rules.extend(&v.broken);
    rules.push("unused-noqa");
    let mut chosen: Vec<&'static str> = vec![];
    for _ in 0..src.weighted(&[3, 4, 2, 1]) {
        let r = if !v.broken.is_empty() && src.bool() { *src.pick(&v.broken) } else { *src.pick(&rules) };
        if !chosen.contains(&r) {
            chosen.push(r);
        }
    }
    for (i, r) in chosen.iter().enumerate() {
        let d = format!("# tombi: lint.rules.{r}.disabled = true");
        if i + 1 == chosen.len() && src.bool() {
            after = format!(" {d}");
            disabled.push((*r, u32::MAX));
        } else {
            before += &format!("{d}\n");
            disabled.push((*r, *line));
            *line += 1;
        }
    }
    for d in &mut disabled {
        if d.1 == u32::MAX {
            d.1 = *line;
        }
    }
    (before, after, disabled)
}
fn c13_directives(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use serde_json::{Map, json};
    let mut doc = String::new();
    let mut line = 0;
    let mut want: BTreeMap<(u32, String), u32> = BTreeMap::new();
    let mut root = Map::new();
    let mut count = 0;
    let mut open = BTreeSet::new();
    let body = |src: &mut Src, doc: &mut String, line: &mut u32, want: &mut BTreeMap<(u32, String), u32>, open: &mut BTreeSet<u32>, props: &mut Map<String, serde_json::Value>, count: &mut u32| {
        for _ in 0..src.usize(0, 3) {
            *count += 1;
            let k = format!("k{count}");
            match src.weighted(&[5, 2, 1]) {
                0 => {
                    let v = scalar(src);
                    let (before, after, disabled) = directives(src, &v, line);
                    *doc += &format!("{before}{k} = {}{after}\n", v.text);
                    expect(&v, *line, &disabled, want, open);
                    *line += 1;
                    props.insert(k, v.schema);
                }
                1 => {
                    // an array of one kind of values, one per line
                    let items: Vec<Val> = {
                        let first = scalar(src);
                        let n = src.usize(0, 3);
                        (0..n).map(|_| Val { schema: first.schema.clone(), text: first.text.clone(), rules: first.rules.clone(), broken: first.broken.clone(), deprecated: first.deprecated, wrapped: first.wrapped }).collect()
                    };
                    let mut s = json!({"type": "array"}).as_object().unwrap().clone();
                    if let Some(i) = items.first() {
                        s.insert("items".into(), i.schema.clone());
                    }
                    let rules = vec!["array-max-values", "array-min-values", "array-unique-values"];
                    let mut broken = vec![];
                    let n = items.len() as i64;
                    if src.chance(1, 3) {
                        let m = src.range(0, 3);
                        s.insert("maxItems".into(), m.into());
                        if n > m {
                            broken.push(rules[0]);
                        }
                    }
                    if src.chance(1, 3) {
                        let m = src.range(0, 3);
                        s.insert("minItems".into(), m.into());
                        if n < m {
                            broken.push(rules[1]);
                        }
                    }
                    if src.chance(1, 3) {
                        s.insert("uniqueItems".into(), true.into());
                        if n > 1 {
                            broken.push(rules[2]);
                        }
                    }
                    let v = Val { schema: s.into(), text: String::new(), rules, broken, deprecated: false, wrapped: false };
                    let (before, _, disabled) = {
                        let mut l = *line;
                        let (mut b, a, mut d) = directives(src, &v, &mut l);
                        if !a.is_empty() {
                            // not after the first line of an array
                            b += &format!("{}\n", a.trim_start());
                            d.last_mut().unwrap().1 = l;
                            l += 1;
                        }
                        *line = l;
                        (b, a, d)
                    };
                    *doc += &format!("{before}{k} = [\n");
                    let unique = v.broken.contains(&"array-unique-values") && !disabled.iter().any(|d| d.0 == "array-unique-values");
                    expect(&v, *line, &disabled, want, open);
                    if unique {
                        // reported at every value that is there twice
                        want.remove(&(*line, "array-unique-values".to_string()));
                    }
                    *line += 1;
                    for i in &items {
                        let (before, after, disabled) = directives(src, i, line);
                        *doc += &format!("{before}  {},{after}\n", i.text);
                        expect(i, *line, &disabled, want, open);
                        if unique {
                            *want.entry((*line, "array-unique-values".into())).or_default() += 1;
                        }
                        *line += 1;
                    }
                    *doc += "]\n";
                    *line += 1;
                    props.insert(k, v.schema);
                }
                _ => {
                    // a key the schema does not have
                    let off = src.bool();
                    *doc += &format!("x{k} = 1{}\n", if off { " # tombi: lint.rules.key-not-allowed.disabled = true" } else { "" });
                    if !off {
                        *want.entry((*line, "key-not-allowed".into())).or_default() += 1;
                    }
                    *line += 1;
                }
            }
        }
    };
    body(src, &mut doc, &mut line, &mut want, &mut open, &mut root, &mut count);
    for t in 0..src.usize(0, 2) {
        let mut props = Map::new();
        let rules = vec!["table-key-required", "table-max-keys", "table-min-keys"];
        let (mut text, mut inner, mut at, mut inner_open) = (String::new(), BTreeMap::new(), 0, BTreeSet::new());
        body(src, &mut text, &mut at, &mut inner, &mut inner_open, &mut props, &mut count);
        let n = text.lines().filter(|l| l.starts_with('k') || l.starts_with('x')).count() as i64;
        let mut s = Map::new();
        let mut broken = vec![];
        let mut required = 0;
        if src.chance(1, 3) {
            // one or two keys that are not there, and maybe one that is
            required = src.usize(1, 2);
            let mut r: Vec<String> = (0..required).map(|i| format!("r{i}")).collect();
            if let Some(k) = props.keys().next()
                && src.bool()
            {
                r.push(k.clone());
            }
            s.insert("required".into(), json!(r));
            for i in 0..required {
                props.insert(format!("r{i}"), json!(true));
                broken.push(rules[0]);
            }
        }
        if src.chance(1, 3) {
            let m = src.range(0, 3);
            s.insert("maxProperties".into(), m.into());
            if n > m {
                broken.push(rules[1]);
            }
        }
        if src.chance(1, 3) {
            let m = src.range(0, 3);
            s.insert("minProperties".into(), m.into());
            if n < m {
                broken.push(rules[2]);
            }
        }
        let _ = required;
        s.insert("type".into(), "object".into());
        s.insert("properties".into(), props.into());
        s.insert("additionalProperties".into(), false.into());
        let v = Val { schema: s.into(), text: String::new(), rules, broken, deprecated: false, wrapped: false };
        doc += "\n";
        line += 1;
        // the range of a table starts with the comments above its header
        let top = line;
        let (before, after, disabled) = directives(src, &v, &mut line);
        doc += &format!("{before}[t{t}]{after}\n");
        expect(&v, top, &disabled, &mut want, &mut open);
        line += 1;
        for ((l, c), n) in inner {
            *want.entry((line + l, c)).or_default() += n;
        }
        open.extend(inner_open.iter().map(|l| line + l));
        line += at;
        doc += &text;
        root.insert(format!("t{t}"), v.schema);
    }
    if src.bool() {
        // the comments of the headers of an array of tables are about the array
        let n = src.usize(1, 3);
        let rules = vec!["array-max-values", "array-min-values", "array-unique-values"];
        let mut broken = vec![];
        let mut s = json!({"type": "array", "items": {"type": "object"}}).as_object().unwrap().clone();
        let m = src.usize(0, 3);
        match src.below(4) {
            0 => {
                s.insert("maxItems".into(), m.into());
                if n > m {
                    broken.push(rules[0]);
                }
            }
            1 => {
                s.insert("minItems".into(), m.into());
                if n < m {
                    broken.push(rules[1]);
                }
            }
            _ => {}
        }
        let v = Val { schema: s.into(), text: String::new(), rules, broken, deprecated: false, wrapped: false };
        let which = 0;
        doc += "\n";
        line += 1;
        let mut top = None;
        let mut disabled = vec![];
        for i in 0..n {
            top.get_or_insert(line);
            let (mut before, mut after) = (String::new(), String::new());
            if i > 0 {
                doc += "a = 1\n\n";
                line += 2;
            }
            if i == which {
                (before, after, disabled) = directives(src, &v, &mut line);
            }
            doc += &format!("{before}[[u]]{after}\n");
            line += 1;
        }
        expect(&v, top.unwrap(), &disabled, &mut want, &mut open);
        root.insert("u".into(), v.schema);
    }
    let schema = json!({"$schema": "https://json-schema.org/draft/2020-12/schema", "x-tombi-string-formats": ["email"], "type": "object", "properties": root, "additionalProperties": false});
    let text = serde_json::to_string_pretty(&schema).unwrap();
    // a directive at the very top belongs to the first item only if something is above it
    let doc = format!("#\n\n{doc}");
    ctx.attach("schema.json", &text);
    ctx.attach("doc.toml", &doc);
    if let Err(e) = crate::reftoml::parse_tbl(&doc, Ver::V10) {
        return fail("generator", format!("{e:?}\n{doc}"));
    }
    if doc.contains("tombi:") {
        ctx.nontrivial(&(&text, &doc));
    }
    ctx.sample(format!("{schema}\n{doc}"));
    let diags = super::schema::lint_schema(ctx, &doc, Ver::V10, &[(super::schema::URI, &text)], false);
    let mut got: BTreeMap<(u32, String), u32> = BTreeMap::new();
    for d in &diags {
        let l = d.range().start.line;
        let l = l.wrapping_sub(2);
        if open.contains(&l) && (d.code() == "deprecated" || d.code() == "unused-noqa" && d.message().contains("`deprecated.")) {
            continue;
        }
        *got.entry((l, d.code().into())).or_default() += 1;
    }
    for (k, n) in &want {
        let g = got.get(k).copied().unwrap_or(0);
        ensure!(g >= *n, format!("missing:{}", k.1), "{} should be reported {n} times in line {}, and is reported {g} times:\n{}", k.1, k.0 + 2, tom::show_diags(&diags));
    }
    for (k, n) in &got {
        let w = want.get(k).copied().unwrap_or(0);
        ensure!(w >= *n, format!("extra:{}", k.1), "{} should be reported {w} times in line {}, and is reported {n} times:\n{}", k.1, k.0 + 2, tom::show_diags(&diags));
    }
    Ok(())
}


// ---------------------------------------------------------------- C12
/// A schema without combinators, an instance of it with unknown keys, and how strict mode reports them
struct Open {
    /// unknown key -> code of its diagnostic in strict mode
    extra: BTreeMap<String, &'static str>,
    n: u32,
    defs: serde_json::Map<String, serde_json::Value>,
    dialect: crate::refschema::Dialect,
}
impl Open {
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    /// Writes a value of the schema it returns
    fn value(&mut self, src: &mut Src, depth: u32, out: &mut String) -> serde_json::Value {
        use serde_json::json;
        match if depth == 0 { src.weighted(&[1]) } else { src.weighted(&[3, 3, 2, 1]) } {
            0 => {
                let t = *src.pick(&["integer", "string", "boolean", "number"]);
                *out += *src.pick(&["1", "\"x\"", "true", "1.5", "2000-01-01", "{ z = 1 }", "[1]"]);
                if src.chance(1, 6) { json!(true) } else { json!({"type": t}) }
            }
            1 => {
                *out += "{ ";
                let mut kvs = vec![];
                let s = self.table(src, depth, &mut |_, _, k, v| kvs.push(format!("{k} = {v}")));
                *out += &kvs.join(", ");
                *out += " }";
                s
            }
            2 => {
                let mut o = String::new();
                let a = self.value(src, depth - 1, &mut o);
                *out += &format!("[{o}]");
                json!({"type": "array", "items": a})
            }
            _ => {
                let (mut o, mut p) = (String::new(), String::new());
                let a = self.value(src, depth - 1, &mut o);
                let b = self.value(src, depth - 1, &mut p);
                *out += &format!("[{o}, {p}]");
                let k = if self.dialect == crate::refschema::Dialect::D2020 { "prefixItems" } else { "items" };
                json!({"type": "array", k: [a, b]})
            }
        }
    }
    /// Emits the key-values of a table of the schema it returns
    fn table(&mut self, src: &mut Src, depth: u32, emit: &mut dyn FnMut(&mut Self, &mut Src, String, String)) -> serde_json::Value {
        use serde_json::{Map, json};
        let (mut s, mut props) = (Map::new(), Map::new());
        s.insert("type".into(), "object".into());
        for _ in 0..src.usize(0, 3) {
            let k = self.fresh("p");
            let mut o = String::new();
            let before = self.extra.clone();
            let v = self.value(src, depth.saturating_sub(1), &mut o);
            props.insert(k.clone(), v);
            if src.chance(3, 4) {
                let k = if src.bool() { k } else { format!("\"{k}\"") };
                emit(self, src, k, o);
            } else {
                self.extra = before;
            }
        }
        let patterns = src.chance(1, 4);
        if patterns {
            s.insert("patternProperties".into(), json!({"^q": {"type": "integer"}}));
            if src.bool() {
                let k = self.fresh("q");
                let v = if src.bool() { "1" } else { "\"x\"" };
                emit(self, src, k, v.to_string());
            }
        }
        let mut open = false;
        match src.weighted(&[5, 1, 1, 1, 1]) {
            1 => {
                s.insert("additionalProperties".into(), true.into());
            }
            2 => {
                s.insert("additionalProperties".into(), false.into());
            }
            3 => {
                s.insert("additionalProperties".into(), json!({"type": "integer"}));
            }
            4 if self.dialect != crate::refschema::Dialect::D7 => {
                s.insert("unevaluatedProperties".into(), if src.bool() { json!(false) } else { json!({"type": "integer"}) });
                open = false;
                if patterns {
                    // what strict mode does with both is left open
                    s.remove("unevaluatedProperties");
                    s.insert("additionalProperties".into(), true.into());
                }
            }
            _ => open = true,
        }
        // an object schema that says nothing about keys is not closed by a list of them
        if open && props.is_empty() && !patterns {
            props.insert("p0".into(), json!(true));
        }
        for _ in 0..src.weighted(&[2, 3, 2]) {
            let k = self.fresh("u");
            if open {
                self.extra.insert(k.clone(), if patterns { "key-pattern" } else { "table-strict-additional-keys" });
            }
            let v = *src.pick(&["1", "\"x\"", "{ z = 1 }", "{}", "[{ z = 1 }]"]);
            emit(self, src, k, v.to_string());
        }
        if src.chance(1, 5) {
            s.insert("maxProperties".into(), json!(src.range(0, 3)));
        }
        if src.chance(1, 5) {
            s.insert("required".into(), json!(["p0"]));
        }
        if !props.is_empty() {
            s.insert("properties".into(), props.into());
        }
        let s: serde_json::Value = s.into();
        if src.chance(1, 5) {
            let n = self.fresh("d");
            self.defs.insert(n.clone(), s);
            let d = if self.dialect == crate::refschema::Dialect::D7 { "definitions" } else { "$defs" };
            return json!({"$ref": format!("#/{d}/{n}")});
        }
        s
    }
}
fn key_at(doc: &str, d: &Diagnostic) -> String {
    // the range of a table starts before its key
    if d.code() == "table-strict-additional-keys" {
        return d.message().split('"').nth(1).unwrap_or("").into();
    }
    let l = doc.lines().nth(d.range().start.line as usize).unwrap_or("");
    l.chars().skip(d.range().start.column as usize).take_while(|c| c.is_alphanumeric()).collect()
}
fn c12_documents(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use crate::refschema::Dialect;
    let dialect = *src.pick(&[Dialect::D7, Dialect::D2019, Dialect::D2020]);
    let mut g = Open { extra: BTreeMap::new(), n: 0, defs: Default::default(), dialect };
    let (mut head, mut tail) = (String::new(), String::new());
    let mut root = g.table(src, 3, &mut |g, src, k, v| {
        // inline tables of the root may become headers or dotted keys
        let body: Option<&str> = v.strip_prefix("{ ").and_then(|v| v.strip_suffix(" }"));
        match body {
            Some(b) if !b.contains(['{', '[']) && src.chance(2, 3) => {
                let kvs: Vec<&str> = b.split(", ").filter(|s| !s.is_empty()).collect();
                if src.bool() {
                    tail += &format!("[{k}]\n{}\n", kvs.join("\n"));
                } else if kvs.is_empty() {
                    head += &format!("{k} = {{}}\n");
                } else {
                    for kv in kvs {
                        head += &format!("{k}.{kv}\n");
                    }
                }
            }
            _ => head += &format!("{k} = {v}\n"),
        }
        let _ = g;
    });
    let doc = format!("{head}{tail}");
    let o = root.as_object_mut().unwrap();
    o.insert("$schema".into(), dialect.uri().into());
    o.insert(if dialect == Dialect::D7 { "definitions" } else { "$defs" }.into(), g.defs.clone().into());
    let text = serde_json::to_string_pretty(&root).unwrap();
    ctx.attach("schema.json", &text);
    ctx.attach("doc.toml", &doc);
    if let Err(e) = crate::reftoml::parse_tbl(&doc, Ver::V10) {
        return fail("generator", format!("{e:?}\n{doc}"));
    }
    if !g.extra.is_empty() {
        ctx.nontrivial(&(&text, &doc));
    }
    ctx.sample(format!("{root}\n{doc}"));
    let files = [(super::schema::URI, text.as_str())];
    let off = super::schema::lint_schema(ctx, &doc, Ver::V10, &files, false);
    let on = super::schema::lint_schema(ctx, &doc, Ver::V10, &files, true);
    ctx.label(if off.is_empty() { "satisfies" } else { "violates" });
    let mut left: Vec<String> = off.iter().map(|d| format!("{d:?}")).collect();
    let mut want = g.extra.clone();
    for d in &on {
        if let Some(i) = left.iter().position(|l| *l == format!("{d:?}")) {
            left.remove(i);
            continue;
        }
        let k = key_at(&doc, d);
        ensure!(want.get(&k).is_some_and(|c| *c == d.code()), format!("extra:{}", d.code()), "strict mode reports {k:?}: {d:?}");
        want.remove(&k);
    }
    ensure!(left.is_empty(), "lost", "strict mode does not report\n{}\nbut\n{}", left.join("\n"), tom::show_diags(&on));
    ensure!(want.is_empty(), "missed", "strict mode does not report the keys {want:?}:\n{}", tom::show_diags(&on));
    Ok(())
}

/// With applicators: strict mode only adds warnings about keys, and whether a document is rejected
/// does not depend on it
fn c12_applicators(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use crate::genschema as gs;
    let mut c = gs::Cfg::random(src);
    c.rec = 0;
    let mut schema = gs::root(src, &c);
    close_patterns(&mut schema);
    let inst = gs::Inst { root: &schema, dates: c.dates };
    let t = match inst.value(src, &schema, 4) {
        crate::reftoml::V::Tbl(t) => t,
        _ => inst.table(src, schema.as_object().unwrap(), 4),
    };
    let doc = gs::document(src, &t);
    let text = serde_json::to_string_pretty(&schema).unwrap();
    ctx.attach("schema.json", &text);
    ctx.attach("doc.toml", &doc);
    let files = [(super::schema::URI, text.as_str())];
    let off = super::schema::lint_schema(ctx, &doc, Ver::V10, &files, false);
    let on = super::schema::lint_schema(ctx, &doc, Ver::V10, &files, true);
    ctx.label_if(on.len() != off.len(), "strict reports more");
    if !t.is_empty() {
        ctx.nontrivial(&(&text, &doc));
    }
    ctx.sample(format!("{schema}\n{doc}"));
    let (a, b) = (super::schema::errors(&off), super::schema::errors(&on));
    ctx.label(if a.is_empty() { "satisfies" } else { "violates" });
    ensure!(a.is_empty() == b.is_empty(), "verdict", "strict off:\n{}\nstrict on:\n{}", tom::show_diags(&off), tom::show_diags(&on));
    Ok(())
}
/// What strict mode does with patternProperties is an error, and so changes which branch applies
/// Which keys of the root table strict mode reports, beside dependencies, conditions and applicators
fn c12_keys(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use crate::genschema as gs;
    use crate::refschema::{Dialect, Ref};
    let dialect = *src.pick(&[Dialect::D2020, Dialect::D7, Dialect::D2019]);
    let depth = src.below(3);
    let mut schema = gs::dense_object(src, dialect, depth);
    close_patterns(&mut schema);
    let o = schema.as_object_mut().unwrap();
    for k in ["additionalProperties", "patternProperties", "unevaluatedProperties"] {
        o.remove(k);
    }
    o.insert("type".into(), "object".into());
    o.insert("$schema".into(), dialect.uri().into());
    let t = gs::dense_keys(src);
    let doc = gs::document(src, &t);
    let text = serde_json::to_string_pretty(&schema).unwrap();
    ctx.attach("schema.json", &text);
    ctx.attach("doc.toml", &doc);
    let files = [(super::schema::URI, text.as_str())];
    let off = super::schema::lint_schema(ctx, &doc, Ver::V10, &files, false);
    let on = super::schema::lint_schema(ctx, &doc, Ver::V10, &files, true);
    if !t.is_empty() {
        ctx.nontrivial(&(&text, &doc));
    }
    ctx.sample(format!("{schema}\n{doc}"));
    let (a, b) = (super::schema::errors(&off), super::schema::errors(&on));
    ensure!(a.is_empty() == b.is_empty(), "verdict", "strict off:\n{}\nstrict on:\n{}", tom::show_diags(&off), tom::show_diags(&on));
    ensure!(off.iter().all(|d| d.code() != "table-strict-additional-keys"), "reported-when-off", "{}", tom::show_diags(&off));
    let data = crate::reftoml::V::Tbl(t.clone());
    let docs = [(super::schema::URI, &schema)];
    let Ok(ann) = Ref::new(&docs, dialect).eval(super::schema::URI, &schema, &data, "") else {
        ctx.label("violates");
        return Ok(());
    };
    ctx.label("satisfies");
    // keys that dependencies name count as known; so they may be left out
    let mut named = BTreeSet::new();
    dependency_keys(&schema, &mut named);
    let mut got: BTreeMap<String, u32> = BTreeMap::new();
    for d in &on {
        if d.code() == "table-strict-additional-keys" {
            *got.entry(key_at(&doc, d)).or_default() += 1;
        }
    }
    for (k, n) in &got {
        ensure!(!ann.props.contains(k), "known-key", "strict mode reports the key {k}, which a schema that holds evaluates:\n{}", tom::show_diags(&on));
        ensure!(*n == 1, "twice", "strict mode reports the key {k} {n} times:\n{}", tom::show_diags(&on));
    }
    for (k, _) in &t {
        ensure!(got.contains_key(k) || ann.props.contains(k) || named.contains(k), "unknown-key", "no schema evaluates the key {k}, and strict mode does not report it:\n{}", tom::show_diags(&on));
    }
    ctx.label_if(!got.is_empty(), "reported");
    Ok(())
}
fn dependency_keys(s: &serde_json::Value, out: &mut BTreeSet<String>) {
    match s {
        serde_json::Value::Object(o) => {
            for (k, v) in o {
                if matches!(k.as_str(), "dependentRequired" | "dependencies" | "dependentSchemas") {
                    for (k, v) in v.as_object().into_iter().flatten() {
                        out.insert(k.clone());
                        out.extend(v.as_array().into_iter().flatten().filter_map(|r| Some(r.as_str()?.to_string())));
                    }
                }
                dependency_keys(v, out);
            }
        }
        serde_json::Value::Array(l) => l.iter().for_each(|v| dependency_keys(v, out)),
        _ => {}
    }
}
fn close_patterns(s: &mut serde_json::Value) {
    match s {
        serde_json::Value::Object(o) => {
            if o.contains_key("patternProperties") && !o.contains_key("additionalProperties") {
                o.insert("additionalProperties".into(), true.into());
            }
            o.values_mut().for_each(close_patterns);
        }
        serde_json::Value::Array(l) => l.iter_mut().for_each(close_patterns),
        _ => (),
    }
}

/// Lints `doc` (at `file`) under `config` or, without one, with `schema` and `strict`, and compares the
/// reported [line, code] with `want`
pub fn lint_probe(j: &serde_json::Value, ctx: &mut Ctx) -> CaseResult {
    let doc = j["doc"].as_str().unwrap();
    let ver = if j["version"] == "v1.1.0" { Ver::V11 } else { Ver::V10 };
    let diags = if let Some(config) = j["config"].as_str() {
        let path = std::path::Path::new("/vt/tombi.toml");
        let config = serde_tombi::config::from_str(config, path).unwrap();
        let files: Vec<(String, String)> = j["files"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
        let files: Vec<(&str, &str)> = files.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        let strict = config.schema.as_ref().and_then(|s| s.strict());
        let store = tom::mem_store(&files, tombi_schema_store::Options { strict, ..Default::default() });
        ctx.block_on(store.load_config(&config, Some(path))).unwrap();
        let opts = config.lint.clone().unwrap_or_default();
        let at = format!("/vt/{}", j["file"].as_str().unwrap_or("doc.toml"));
        tom::lint_with(ctx, doc, ver, &opts, Some(std::path::Path::new(&at)), &store)
    } else if j["schema"].is_object() {
        super::schema::lint_schema(ctx, doc, ver, &[(super::schema::URI, &j["schema"].to_string())], j["strict"].as_bool().unwrap_or(false))
    } else {
        tom::lint(ctx, doc, ver)
    };
    let mut got: Vec<(u64, String)> = diags.iter().map(|d| (d.range().start.line as u64, d.code().to_string())).collect();
    got.sort();
    let mut want: Vec<(u64, String)> = j["want"].as_array().unwrap().iter().map(|w| (w[0].as_u64().unwrap(), w[1].as_str().unwrap().to_string())).collect();
    want.sort();
    if let Some(w) = want.iter().find(|w| !got.contains(w)) {
        return fail(format!("missing:{}", w.1), format!("{w:?} is missing:\n{}", tom::show_diags(&diags)));
    }
    ensure!(got == want, format!("extra:{}", got.iter().find(|g| !want.contains(g)).map_or("", |g| g.1.as_str())), "{want:?} expected:\n{}", tom::show_diags(&diags));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        rule: "a document with unknown keys of open tables, or any keys and a schema with applicators; distinct by both",
        assumptions: &[],
        streams: vec![
            Stream { name: "documents", quick: 15_000, thorough: 2_000_000, case: c12_documents },
            Stream { name: "settings", quick: 10_000, thorough: 2_000_000, case: super::schemas::c12_settings },
            Stream { name: "applicators", quick: 25_000, thorough: 2_000_000, case: c12_applicators },
            Stream { name: "keys", quick: 20_000, thorough: 1_000_000, case: c12_keys },
        ],
        probe: Some(lint_probe),
        min_nontrivial: 500,
    },
    Prop {
        id: "C33",
        rule: "a document with at least one interrupted group; distinct by text",
        assumptions: &["related keys (tables) are those of one body (document) whose first key is the same after decoding"],
        streams: vec![Stream { name: "documents", quick: 40_000, thorough: 4_000_000, case: c33_docs }],
        probe: Some(lint_probe),
        min_nontrivial: 500,
    },
    Prop {
        id: "C13",
        rule: "a document with a reported or disabled rule and a setting or directive about it; distinct by both",
        assumptions: &[],
        streams: vec![
            Stream { name: "levels", quick: 8_000, thorough: 2_000_000, case: c13_levels },
            Stream { name: "directives", quick: 8_000, thorough: 2_000_000, case: c13_directives },
        ],
        probe: Some(lint_probe),
        min_nontrivial: 500,
    }]
}
