//! C01 acceptance, C02 values, C03 lossless tree, C04 totality
use crate::engine::*;
use crate::ensure;
use crate::gentoml as g;
use crate::reftoml::{self, Bad, Ver};
use crate::tom;
use serde_json::Value as J;

fn ver_of(j: &J) -> Ver {
    if j["version"] == "v1.1.0" { Ver::V11 } else { Ver::V10 }
}

// ------------------------------------------------------------ C01
fn check_accept(ctx: &mut Ctx, doc: &str, ver: Ver) -> CaseResult {
    ctx.attach("doc.toml", doc);
    let want = match reftoml::parse(doc, ver) {
        Ok(_) => None,
        Err(Bad::Unspecified(u)) => {
            ctx.label(format!("unspecified: {u}"));
            return Ok(());
        }
        Err(Bad::Invalid(m, at)) => Some((m, at)),
    };
    ctx.label(format!("{} {}", ver.text(), if want.is_none() { "valid" } else { "invalid" }));
    ctx.sample(format!("{} {} {doc:?}", ver.text(), if want.is_none() { "valid" } else { "invalid" }));
    ctx.nontrivial(&(doc, ver));
    let errs: Vec<_> = tom::lint(ctx, doc, ver).into_iter().filter(|d| d.is_error()).collect();
    let tree = tom::tree(doc, ver);
    match want {
        None => {
            if let Some(d) = errs.first() {
                return fail(format!("reject-valid:{}", d.code()), format!("{} valid document rejected: {} at {}", ver.text(), d.message(), d.range()));
            }
            if let Err(e) = tree {
                return fail("tree-reject-valid", format!("{} valid document has no tree: {e}", ver.text()));
            }
        }
        Some((m, at)) => {
            if errs.is_empty() {
                let class: String = m.split(['`', '"', ':']).next().unwrap_or("").trim().into();
                return fail(format!("accept-invalid:{class}"), format!("{} invalid document accepted ({m} at byte {at})", ver.text()));
            }
        }
    }
    Ok(())
}
fn small_cfg(src: &mut Src) -> g::Cfg {
    let mut c = g::Cfg::random(src);
    c.max_stmts = *src.pick(&[2, 4, 8]);
    c.long = false;
    c
}
fn c01_valid(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = small_cfg(src);
    let doc = g::document(src, &cfg);
    check_accept(ctx, &doc, cfg.ver)?;
    // the same text under the other version
    let other = if cfg.ver == Ver::V10 { Ver::V11 } else { Ver::V10 };
    check_accept(ctx, &doc, other)
}
fn c01_mutated(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = small_cfg(src);
    cfg.max_stmts = 3;
    let doc = g::document(src, &cfg);
    let doc = if src.chance(1, 4) { g::mutate_lines(src, &doc) } else { g::mutate(src, &doc) };
    check_accept(ctx, &doc, cfg.ver)
}
/// one key-value whose value is a scalar-like string over a small alphabet
fn c01_scalar(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ver = *src.pick(&[Ver::V10, Ver::V11]);
    let cfg = g::Cfg::new(ver);
    let v = match src.below(5) {
        4 => {
            // escapes with one digit too few or too many, surrogates, beyond the last code point
            let q = *src.pick(&["\"", "\"\"\""]);
            let mut b = String::new();
            for _ in 0..src.usize(1, 3) {
                b += &match src.below(4) {
                    0 => {
                        let v = *src.pick(&[Ver::V10, Ver::V11]);
                        g::escape(src, v)
                    }
                    1 => format!("\\{}{:x}", src.pick(&["u", "U0000", "U000", "U", "u0"]), *src.pick(&[0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0x10ffffu32, 0x110000])),
                    2 => format!("\\U{:08X}", *src.pick(&[0xd800, 0xdfff, 0x10ffff, 0x110000, 0x7fffffff, 0xffffffffu32])),
                    _ => src.pick(&["a", " ", "0", "g", "\\x", "\\x0", "\\xg0"]).to_string(),
                };
            }
            format!("{q}{b}{q}")
        }
        0 => {
            const A: &[&str] = &["0", "1", "9", "_", "+", "-", ".", "e", "E", "x", "o", "b", "a", "F", "inf", "nan", "7", ":", "00", "|"];
            (0..src.usize(1, 7)).map(|_| *src.pick(A)).collect::<String>()
        }
        1 => {
            let s = g::datetime(src, &cfg);
            g::mutate(src, &s)
        }
        2 => {
            let q = *src.pick(&["\"", "'", "\"\"\"", "'''"]);
            const A: &[&str] = &["a", "\\", "\"", "'", "\n", " ", "u", "U", "0", "D", "8", "00", "e", "x", "n", "\t", "\u{7f}", "\u{0}", "é", "\r\n", "\r", "\u{a0}", "+1", "\u{1f}", "\u{85}"];
            let body: String = (0..src.usize(0, 8)).map(|_| *src.pick(A)).collect();
            format!("{q}{body}{q}")
        }
        _ => {
            let s = g::scalar(src, &cfg);
            if src.bool() { g::mutate(src, &s) } else { s }
        }
    };
    let doc = match src.below(5) {
        0 => format!("a = [{v}]"),
        1 => format!("a = {{b={v}}}"),
        2 => format!("a = [{v}, {v}]\n"),
        3 => format!("a = {v} # c\nb = 1"),
        _ => format!("a = {v}\n"),
    };
    check_accept(ctx, &doc, ver)
}
/// headers and dotted keys over a tiny key alphabet: duplicate and redefinition rules
fn structure(src: &mut Src) -> String {
    let n = src.usize(1, 8);
    let mut doc = String::new();
    let path = |src: &mut Src| -> String {
        let n = src.usize(1, 3);
        (0..n).map(|_| *src.pick(&["a", "b", "\"a\"", "c", "'b'"])).collect::<Vec<_>>().join(".")
    };
    for _ in 0..n {
        match src.weighted(&[4, 3, 3]) {
            0 => {
                let k = path(src);
                let v = match src.below(6) {
                    0 => format!("{{{} = 1}}", path(src)),
                    1 => format!("{{{} = 1, {} = 2}}", path(src), path(src)),
                    2 => "[]".into(),
                    3 => format!("[{{{} = 1}}]", path(src)),
                    4 => "{}".into(),
                    _ => "1".to_string(),
                };
                doc += &format!("{k} = {v}\n");
            }
            1 => doc += &format!("[{}]\n", path(src)),
            _ => doc += &format!("[[{}]]\n", path(src)),
        }
    }
    doc
}
fn c01_structure(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ver = *src.pick(&[Ver::V10, Ver::V11]);
    let doc = structure(src);
    check_accept(ctx, &doc, ver)
}
/// random token soup
fn soup(src: &mut Src) -> String {
    const A: &[&str] = &[
        "a", "b", "=", " ", "\n", "[", "]", "[[", "]]", "{", "}", ",", ".", "1", "\"x\"", "'y'", "# c", "\r\n", "true", "1.5", "\"\"\"", "'''",
        "2020-01-01", "a = 1\n", "a.b = 2\n", "[t]\n", "\t", "-", "\"k\" = 1\n",
    ];
    (0..src.usize(0, 14)).map(|_| *src.pick(A)).collect()
}
fn c01_soup(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ver = *src.pick(&[Ver::V10, Ver::V11]);
    let doc = soup(src);
    check_accept(ctx, &doc, ver)
}
fn c01_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    check_accept(ctx, j["doc"].as_str().unwrap(), ver_of(j))
}

// ------------------------------------------------------------ C02
fn check_values(ctx: &mut Ctx, doc: &str, ver: Ver) -> CaseResult {
    ctx.attach("doc.toml", doc);
    let want = match reftoml::parse(doc, ver) {
        Ok(d) => d.root,
        Err(_) => {
            ctx.label("not valid");
            return Ok(());
        }
    };
    if !want.is_empty() {
        ctx.nontrivial(&(doc, ver));
    }
    ctx.sample(format!("{} {doc:?}", ver.text()));
    let got = match tom::tree(doc, ver) {
        Ok(t) => t,
        Err(e) => return fail("no-tree", format!("valid document has no tree: {e}")),
    };
    if let Some(d) = reftoml::diff_tbl(&want, &got, false, "") {
        let kind = d.rsplit(": ").next().unwrap_or("").split(['(', ' ']).next().unwrap_or("").to_string();
        return fail(format!("value:{kind}"), format!("expected vs decoded: {d}"));
    }
    Ok(())
}
fn c02_doc(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = g::Cfg::random(src);
    let doc = g::document(src, &cfg);
    check_values(ctx, &doc, cfg.ver)
}
fn c02_structure(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ver = *src.pick(&[Ver::V10, Ver::V11]);
    // distinct values so that a misplaced one is seen; only the statements that keep it valid
    let all = structure(src);
    let mut doc = String::new();
    let mut n = 0;
    for l in all.lines() {
        let mut line = String::new();
        for p in l.split_inclusive(" = ") {
            line += p;
        }
        n += 10;
        let line = line.replace("= 1", &format!("= {}", n + 1)).replace("= 2", &format!("= {}", n + 2));
        let cand = format!("{doc}{line}\n");
        if reftoml::parse(&cand, ver).is_ok() {
            doc = cand;
        }
    }
    check_values(ctx, &doc, ver)
}
fn c02_string(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = g::Cfg::random(src);
    let mut doc = String::new();
    for i in 0..src.usize(1, 4) {
        doc += &format!("k{i} = {}\n", g::string(src, &cfg, true));
    }
    let k = g::key(src, &cfg);
    doc += &format!("{k}.\"\\u0041{i}\\t\" = 1\n", i = src.below(3));
    check_values(ctx, &doc, cfg.ver)
}
fn c02_number(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = g::Cfg::random(src);
    let mut doc = String::new();
    for i in 0..src.usize(1, 5) {
        let v = match src.below(3) {
            0 => g::integer(src),
            1 => g::float(src),
            _ => g::datetime(src, &cfg),
        };
        doc += &format!("k{i} = {v}\n");
    }
    check_values(ctx, &doc, cfg.ver)
}
fn c02_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    check_values(ctx, j["doc"].as_str().unwrap(), ver_of(j))
}

// ------------------------------------------------------------ C03
/// line and column of every token boundary: \n and \r\n end a line, columns count the grapheme
/// clusters of each token (the unit tombi documents positions in)
fn lines_of(text: &str, tokens: &[(usize, usize)]) -> std::collections::HashMap<usize, (u32, u32)> {
    use unicode_segmentation::UnicodeSegmentation;
    let (mut line, mut col) = (0u32, 0u32);
    let mut pos = std::collections::HashMap::from([(0, (0, 0))]);
    for (s, e) in tokens {
        let t = &text[*s..*e];
        let last = match t.rfind('\n') {
            Some(i) => {
                line += t.matches('\n').count() as u32;
                col = 0;
                &t[i + 1..]
            }
            None => t,
        };
        col += last.graphemes(true).count() as u32;
        pos.insert(*e, (line, col));
    }
    pos
}
fn check_tree(ctx: &mut Ctx, doc: &str) -> CaseResult {
    ctx.attach("doc.toml", doc);
    let p = tombi_parser::parse(doc);
    ctx.label(if p.errors.is_empty() { "parses" } else { "has syntax errors" });
    ctx.label_if(doc.contains("\r\n"), "crlf");
    ctx.label_if(!doc.is_ascii(), "non-ascii");
    if !doc.is_empty() {
        ctx.nontrivial(&doc);
    }
    ctx.sample(format!("{doc:?}"));
    let node = p.syntax_node();
    let tokens: Vec<(usize, usize)> = node
        .descendants_with_tokens()
        .filter_map(|t| t.into_token())
        .map(|t| (u32::from(t.span().start) as usize, u32::from(t.span().end) as usize))
        .collect();
    for (s, e) in &tokens {
        ensure!(s <= e && *e <= doc.len() && doc.is_char_boundary(*s) && doc.is_char_boundary(*e), "span-bounds", "token at {s}..{e} of {} bytes", doc.len());
    }
    let lines = lines_of(doc, &tokens);
    let mut off = 0usize;
    let mut text = String::new();
    for t in node.descendants_with_tokens() {
        let (span, range, what) = match &t {
            tombi_rg_tree::NodeOrToken::Node(n) => (n.span(), n.range(), format!("{:?}", n.kind())),
            tombi_rg_tree::NodeOrToken::Token(t) => (t.span(), t.range(), format!("{:?}", t.kind())),
        };
        let (s, e) = (u32::from(span.start) as usize, u32::from(span.end) as usize);
        ensure!(s <= e && e <= doc.len(), "span-bounds", "{what}: span {s}..{e} of {} bytes", doc.len());
        if let tombi_rg_tree::NodeOrToken::Token(t) = &t {
            ensure!(s == off, "span-gap", "token {what} starts at {s}, expected {off}");
            ensure!(doc.is_char_boundary(s) && doc.is_char_boundary(e), "span-char", "token {what} splits a character");
            ensure!(&doc[s..e] == t.text(), "span-text", "token {what} {:?} at {s}..{e} is {:?}", t.text(), &doc[s..e]);
            off = e;
            text += t.text();
        }
        if let tombi_rg_tree::NodeOrToken::Node(n) = &t {
            let mut at = s;
            let mut pos = range.start;
            for c in n.children_with_tokens() {
                let (cs, cr) = match &c {
                    tombi_rg_tree::NodeOrToken::Node(n) => (n.span(), n.range()),
                    tombi_rg_tree::NodeOrToken::Token(t) => (t.span(), t.range()),
                };
                ensure!(u32::from(cs.start) as usize == at && cr.start == pos, "child-cover", "child of {what} starts at {cs:?} {cr}, expected {at} {pos}");
                at = u32::from(cs.end) as usize;
                pos = cr.end;
            }
            ensure!(at == e && pos == range.end, "child-cover", "children of {what} end at {at} {pos}, expected {e} {}", range.end);
        }
        let (Some(want_s), Some(want_e)) = (lines.get(&s).copied(), lines.get(&e).copied()) else {
            return fail("span-gap", format!("{what} {s}..{e} does not start and end at token boundaries"));
        };
        ensure!(
            (range.start.line, range.start.column) == want_s && (range.end.line, range.end.column) == want_e,
            "range",
            "{what} {s}..{e}: range {range}, expected {want_s:?}-{want_e:?}"
        );
    }
    ensure!(text == doc, "lossless", "tree text {text:?} differs from the source");
    Ok(())
}
fn any_text(src: &mut Src) -> String {
    match src.below(5) {
        0 => {
            let cfg = g::Cfg::random(src);
            g::document(src, &cfg)
        }
        1 | 2 => {
            let mut cfg = small_cfg(src);
            cfg.mixed_nl = src.chance(1, 3);
            let d = g::document(src, &cfg);
            g::mutate(src, &d)
        }
        3 => soup(src),
        _ => {
            const A: &[&str] = &[
                "a", "é", "日", "😀", "e\u{301}", "\r", "\n", "\r\n", "\t", " ", "\"", "'", "\\", "#", "[", "]", "{", "}", "=", ".", ",", "\u{0}", "\u{7f}",
                "\u{feff}", "\u{2028}", "\u{200d}", "\u{1f468}", "1", "\"\"\"", "'''", "\u{85}", "\u{a0}", "_", "-", "+", ":", "T", "%", "\u{10ffff}", "\u{b}", "\u{c}",
            ];
            (0..src.usize(0, 16)).map(|_| *src.pick(A)).collect()
        }
    }
}
fn c03_any(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let doc = any_text(src);
    check_tree(ctx, &doc)
}
fn c03_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    check_tree(ctx, j["doc"].as_str().unwrap())
}

// ------------------------------------------------------------ C04
/// line lengths in grapheme clusters, the unit tombi counts columns in
fn line_lengths(doc: &str) -> Vec<u32> {
    use unicode_segmentation::UnicodeSegmentation;
    doc.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l).graphemes(true).count() as u32).collect()
}
pub fn check_range_inside(doc: &str, r: tombi_text::Range, what: &str) -> CaseResult {
    let mut lines = line_lengths(doc);
    // a token boundary inside a grapheme cluster splits it into two columns
    for (n, l) in lines.iter_mut().zip(doc.split('\n')) {
        if !l.is_ascii() {
            *n = (*n).max(l.chars().count() as u32);
        } else if l.contains('\r') {
            *n += 1;
        }
    }
    ensure!(r.start <= r.end, "range-order", "{what}: range {r} starts after its end");
    for p in [r.start, r.end] {
        ensure!((p.line as usize) < lines.len() && p.column <= lines[p.line as usize], "range-outside", "{what}: position {p} lies outside the document");
    }
    Ok(())
}
fn check_total(ctx: &mut Ctx, doc: &str, ver: Ver, fmt: Option<&tombi_config::FormatOptions>) -> CaseResult {
    ctx.attach("doc.toml", doc);
    ctx.sample(format!("{doc:?}"));
    let p = tombi_parser::parse(doc);
    ctx.label(if p.errors.is_empty() { "parses" } else { "has syntax errors" });
    ctx.nontrivial(&(doc, ver));
    use tombi_diagnostic::SetDiagnostics;
    let mut ds = vec![];
    for e in p.errors.clone() {
        e.set_diagnostics(&mut ds);
    }
    // the tree of a broken document is built too (the language server does it)
    {
        use tombi_ast::AstNode;
        use tombi_document_tree::IntoDocumentTreeAndErrors;
        let root = tombi_ast::Root::cast(p.into_syntax_node()).unwrap();
        let (_tree, errs) = root.into_document_tree_and_errors(ver.tombi()).into();
        errs.set_diagnostics(&mut ds);
    }
    ds.extend(tom::lint(ctx, doc, ver));
    if let Some(fmt) = fmt
        && let Err(e) = tom::format(ctx, doc, ver, fmt)
    {
        ds.extend(e);
    }
    for d in &ds {
        check_range_inside(doc, d.range(), &format!("{} {}", d.code(), d.message()))?;
    }
    Ok(())
}
fn c04_any(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ver = *src.pick(&[Ver::V10, Ver::V11]);
    let doc = any_text(src);
    check_total(ctx, &doc, ver, Some(&Default::default()))
}
fn c04_deep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let ver = *src.pick(&[Ver::V10, Ver::V11]);
    let n = *src.pick(&[10usize, 25, 100, 127, 128, 129, 200, 1000, 5000]);
    let unit = *src.pick(&["[", "{a=", "[[", "a.", "[{a=", "{a.b=[", "[\n", "[#c\n"]);
    let n = if unit.contains('\n') { n.min(1000) } else { n };
    let close: String = unit
        .chars()
        .rev()
        .filter_map(|c| match c {
            '[' => Some(']'),
            '{' => Some('}'),
            _ => None,
        })
        .collect();
    let lead = *src.pick(&["a = ", "", "a = [1,", "[", "a."]);
    let mid = *src.pick(&["1", "", "]", "=", "\"", "\n"]);
    let mut doc = format!("{lead}{}{mid}", unit.repeat(n));
    let closed = src.bool();
    if closed {
        doc += &close.repeat(n);
    }
    if src.chance(1, 4) {
        doc += "\nb = 1\n";
    }
    ctx.label(format!("depth {n}"));
    // formatting closed nested arrays costs about depth^4, so the deepest ones that parse are only linted
    let cheap = !closed || n <= 15 || !unit.starts_with('[');
    check_total(ctx, &doc, ver, cheap.then_some(&Default::default()))
}
const DIRECTIVES: &[&str] = &[
    "#:tombi", "#:tombi ", "#:tombi toml-version = \"v1.1.0\"", "#:tombi toml-version = \"v1.0.0\"", "#:tombi toml-version = 1", "#:tombi format.disabled = true",
    "#:tombi lint.disabled = true", "#:tombi lint.disabled = 1", "#:tombi schema.strict = false", "#:schema", "#:schema ./nothing.json", "#:schema http://[", "#:tombi a.b.",
    "# tombi: format.rules.array-values-order = \"ascending\"", "# tombi: format.rules.table-keys-order = \"descending\"", "# tombi: lint.rules.const-value.disabled = true",
    "# tombi: lint.rules.unknown.disabled = true", "# tombi:", "# tombi: =", "# tombi: lint = {", "# tombi: lint.rules.key-empty.disabled = 1", "#:tombi [a]", "#:tombi é = \"日本\"",
    "# tombi: \"", "#tombi: a = 1", "#:tombi format.rules.x = 1", "# tombi: format.rules.array-values-order.values = 3", "#:tombi lint.rules.dotted-keys-out-of-order.disabled = true",
    "# tombi: lint.rules.tables-out-of-order.disabled = true", "# tombi: format.disabled = true",
];
pub fn with_directives(src: &mut Src, doc: &str) -> String {
    let doc = insert_directives(src, doc);
    if src.chance(1, 4) { g::mutate(src, &doc) } else { doc }
}
pub fn insert_directives(src: &mut Src, doc: &str) -> String {
    let mut l: Vec<String> = doc.split_inclusive('\n').map(|s| s.to_string()).collect();
    for _ in 0..src.usize(1, 3) {
        let d = src.pick(DIRECTIVES).to_string();
        let i = if src.bool() { 0 } else { src.usize(0, l.len()) };
        if src.chance(1, 4) && i < l.len() {
            let t = l[i].trim_end_matches(['\n', '\r']).to_string();
            l[i] = format!("{t} {d}\n");
        } else {
            l.insert(i, format!("{d}\n"));
        }
    }
    l.concat()
}
fn c04_directive(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = small_cfg(src);
    let doc = g::document(src, &cfg);
    let doc = with_directives(src, &doc);
    check_total(ctx, &doc, cfg.ver, Some(&Default::default()))
}
/// truncations: what an editor sees while typing
fn c04_truncated(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = small_cfg(src);
    let doc = g::document(src, &cfg);
    let mut i = src.usize(0, doc.len());
    while !doc.is_char_boundary(i) {
        i -= 1;
    }
    let doc = doc[..i].to_string();
    check_total(ctx, &doc, cfg.ver, Some(&Default::default()))
}
fn c04_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    check_total(ctx, j["doc"].as_str().unwrap(), ver_of(j), Some(&Default::default()))
}

pub fn props() -> Vec<Prop> {
    let s = |name, quick, thorough, case| Stream { name, quick, thorough, case };
    vec![
        Prop {
            id: "C01",
            rule: "a text with a definite verdict from the reference parser; distinct by text and version",
            assumptions: &["the reference parser in harness/core/src/reftoml.rs (cross-checked against Python's tomllib) is the TOML specification", "verdicts the specification leaves open (leap seconds, year 0, float overflow, nesting deeper than 60) are skipped"],
            streams: vec![
                s("valid", 15_000, 1_000_000, c01_valid),
                s("mutated", 30_000, 3_000_000, c01_mutated),
                s("scalar", 60_000, 3_000_000, c01_scalar),
                s("structure", 50_000, 3_000_000, c01_structure),
                s("soup", 25_000, 2_000_000, c01_soup),
            ],
            probe: Some(c01_probe),
            min_nontrivial: 500,
        },
        Prop {
            id: "C02",
            rule: "a valid document with at least one key; distinct by text and version",
            assumptions: &["the reference parser in harness/core/src/reftoml.rs is the TOML specification", "line endings inside strings compare modulo CRLF/LF"],
            streams: vec![
                s("doc", 80_000, 2_000_000, c02_doc),
                s("structure", 80_000, 2_000_000, c02_structure),
                s("string", 80_000, 3_000_000, c02_string),
                s("number", 80_000, 3_000_000, c02_number),
            ],
            probe: Some(c02_probe),
            min_nontrivial: 500,
        },
        Prop {
            id: "C03",
            rule: "a non-empty text; distinct by text",
            assumptions: &["lines end at LF or CRLF; columns count the grapheme clusters of each token"],
            streams: vec![s("any", 150_000, 5_000_000, c03_any)],
            probe: Some(c03_probe),
            min_nontrivial: 500,
        },
        Prop {
            id: "C04",
            rule: "any text; distinct by text and version",
            assumptions: &["work runs on a thread with a 256 MB stack, as the language server and CLI limits are not part of the property"],
            streams: vec![
                s("any", 40_000, 2_000_000, c04_any),
                s("deep", 300, 5_000, c04_deep),
                s("directive", 15_000, 500_000, c04_directive),
                s("truncated", 20_000, 1_000_000, c04_truncated),
            ],
            probe: Some(c04_probe),
            min_nontrivial: 500,
        },
    ]
}
