//! C05 data, C06 idempotence, C07 comments, C08 rules, C09 left alone
use crate::engine::*;
use crate::ensure;
use crate::gentoml as g;
use crate::reftoml::{self, Bad, Doc, StmtKind, T, Ver};
use crate::tom;
use serde_json::Value as J;
use tombi_config::{CommentStyle, DateTimeDelimiter, FormatOptions, FormatRules, IndentStyle, LineEnding, StringQuoteStyle};

pub fn ver_of(j: &J) -> Ver {
    if j["version"] == "v1.1.0" { Ver::V11 } else { Ver::V10 }
}
/// half of the time the defaults, else a random subset of all rules
pub fn rules(src: &mut Src) -> FormatRules {
    let mut r = FormatRules::default();
    if src.chance(1, 4) {
        return r;
    }
    let den = *src.pick(&[8, 3, 2]);
    let on = |src: &mut Src| src.chance(1, den);
    if on(src) {
        r.array_bracket_space_width = Some((src.below(4) as u8).into());
    }
    if on(src) {
        r.array_comma_space_width = Some((src.below(4) as u8).into());
    }
    if on(src) {
        r.comment_style = Some(*src.pick(&[CommentStyle::Normalize, CommentStyle::Preserve]));
    }
    if on(src) {
        r.date_time_delimiter = Some(*src.pick(&[DateTimeDelimiter::T, DateTimeDelimiter::Space, DateTimeDelimiter::Preserve]));
    }
    if on(src) {
        r.group_blank_lines_limit = Some((1 + src.below(4) as u8).try_into().unwrap());
    }
    if on(src) {
        r.indent_style = Some(*src.pick(&[IndentStyle::Space, IndentStyle::Tab]));
    }
    if on(src) {
        r.indent_sub_tables = Some(src.bool());
    }
    if on(src) {
        r.indent_table_key_value_pairs = Some(src.bool());
    }
    if on(src) {
        r.indent_width = Some((*src.pick(&[0u8, 1, 2, 3, 4, 8, 17, 200])).into());
    }
    if on(src) {
        r.inline_table_brace_space_width = Some((src.below(4) as u8).into());
    }
    if on(src) {
        r.inline_table_comma_space_width = Some((src.below(4) as u8).into());
    }
    if on(src) {
        r.key_value_equals_sign_alignment = Some(src.bool());
    }
    if on(src) {
        r.key_quote_style = Some(*src.pick(&[StringQuoteStyle::Double, StringQuoteStyle::Single, StringQuoteStyle::Preserve]));
    }
    if on(src) {
        r.string_quote_style = Some(*src.pick(&[StringQuoteStyle::Double, StringQuoteStyle::Single, StringQuoteStyle::Preserve]));
    }
    if on(src) {
        r.trailing_comment_alignment = Some(src.bool());
    }
    if on(src) {
        r.key_value_equals_sign_space_width = Some((src.below(4) as u8).into());
    }
    if on(src) {
        r.line_ending = Some(*src.pick(&[LineEnding::Auto, LineEnding::Lf, LineEnding::Crlf]));
    }
    if on(src) {
        r.line_width = Some((*src.pick(&[80u8, 40, 20, 10, 1, 120, 255])).try_into().unwrap());
    }
    if on(src) {
        r.table_blank_lines = Some((src.below(4) as u8).into());
    }
    if on(src) {
        r.trailing_comment_space_width = Some((src.below(4) as u8).into());
    }
    r
}
pub fn show_rules(r: &FormatRules) -> String {
    let s = serde_json::to_value(r).unwrap();
    let m: serde_json::Map<String, J> = s.as_object().unwrap().iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), v.clone())).collect();
    J::Object(m).to_string()
}
fn opts_of(j: &J) -> FormatOptions {
    FormatOptions { rules: Some(serde_json::from_value(j["rules"].clone()).unwrap_or_default()) }
}
struct In {
    doc: String,
    ver: Ver,
    opts: FormatOptions,
    parsed: Doc,
}
/// a valid document with options; directive comments only when asked for
fn input(src: &mut Src, ctx: &mut Ctx) -> Option<In> {
    let mut cfg = g::Cfg::random(src);
    if cfg.mixed_nl {
        cfg.mixed_nl = src.chance(1, 3);
    }
    let doc = g::document(src, &cfg);
    let r = rules(src);
    make(ctx, doc, cfg.ver, FormatOptions { rules: Some(r) })
}
/// small dense documents: nested arrays and inline tables with comments
fn input_value(src: &mut Src, ctx: &mut Ctx) -> Option<In> {
    let mut cfg = g::Cfg::random(src);
    cfg.comments = *src.pick(&[100, 400, 800]);
    cfg.depth = 2 + src.below(2);
    cfg.multiline_arrays = true;
    let mut doc = String::new();
    for i in 0..src.usize(1, 2) {
        let v = if src.bool() { g::array(src, &cfg, cfg.depth) } else { g::inline_table(src, &cfg, cfg.depth) };
        doc += &format!("{}{i} = {v}", g::BARE[src.below(5) as usize]);
        if src.chance(cfg.comments, 2000) {
            doc += &format!(" {}", g::comment(src));
        }
        doc += cfg.nl;
    }
    let r = rules(src);
    make(ctx, doc, cfg.ver, FormatOptions { rules: Some(r) })
}
/// documents with directive comments in random places
fn input_directive(src: &mut Src, ctx: &mut Ctx) -> Option<In> {
    let mut cfg = g::Cfg::random(src);
    cfg.mixed_nl = false;
    cfg.max_stmts = cfg.max_stmts.min(8);
    let doc = g::document(src, &cfg);
    let doc = super::accept::insert_directives(src, &doc);
    let r = rules(src);
    make(ctx, doc, cfg.ver, FormatOptions { rules: Some(r) })
}
fn make(ctx: &mut Ctx, doc: String, ver: Ver, opts: FormatOptions) -> Option<In> {
    ctx.attach("doc.toml", &doc);
    ctx.attach("rules.json", &show_rules(opts.rules.as_ref().unwrap()));
    ctx.attach("version", ver.text());
    match reftoml::parse(&doc, ver) {
        Ok(parsed) => {
            ctx.label(ver.text());
            ctx.label_if(parsed.toks.iter().any(|t| t.t == T::Comment), "with comments");
            ctx.label_if(doc.contains("\r\n"), "crlf");
            for s in opts.rules.iter() {
                if *s != FormatRules::default() {
                    ctx.label("with options");
                }
            }
            Some(In { doc, ver, opts, parsed })
        }
        Err(_) => {
            ctx.label("skipped: not a valid document");
            None
        }
    }
}
fn fmt(ctx: &Ctx, i: &In) -> Result<String, Fail> {
    tom::format(ctx, &i.doc, i.ver, &i.opts).map_err(|d| Fail { sig: "format-error".into(), msg: format!("formatting a valid document fails: {}", tom::show_diags(&d)), files: vec![] })
}
fn non_trivial(ctx: &mut Ctx, i: &In, out: &str) {
    if out != i.doc && !i.parsed.toks.is_empty() {
        ctx.nontrivial(&(&i.doc, show_rules(i.opts.rules.as_ref().unwrap())));
    }
    ctx.sample(format!("{} {} {:?} -> {:?}", i.ver.text(), show_rules(i.opts.rules.as_ref().unwrap()), i.doc, out));
}

// ------------------------------------------------------------ C05
fn check_data(ctx: &mut Ctx, i: Option<In>) -> CaseResult {
    let Some(i) = i else { return Ok(()) };
    let out = fmt(ctx, &i)?;
    non_trivial(ctx, &i, &out);
    let got = match reftoml::parse(&out, i.ver) {
        Ok(d) => d.root,
        Err(Bad::Invalid(m, at)) => return fail("invalid-output", format!("the output is not valid TOML: {m} at byte {at}")).with("out.toml", &out),
        Err(Bad::Unspecified(m)) => return fail("unspecified-output", format!("the output's validity is unspecified: {m}")).with("out.toml", &out),
    };
    // a header that follows a header of one of its sub-tables is moved before it
    let hdrs: Vec<&Vec<String>> = i.parsed.stmts.iter().filter(|s| s.kind != StmtKind::KeyValue).map(|s| &s.path).collect();
    let parent_late = hdrs.iter().enumerate().any(|(n, p)| hdrs[..n].iter().any(|q| q.len() > p.len() && q.starts_with(p)));
    ctx.label_if(parent_late, "key order not compared: a header follows one of its sub-tables");
    if let Some(d) = reftoml::diff_tbl(&i.parsed.root, &got, !parent_late, "") {
        let kind = d.rsplit(": ").next().unwrap_or("").split(['(', ' ']).next().unwrap_or("").to_string();
        return fail(format!("data:{kind}"), format!("original vs formatted data: {d}")).with("out.toml", &out);
    }
    // tombi itself reads its output
    if let Err(e) = tom::tree(&out, i.ver) {
        return fail("own-output", format!("the output is rejected: {e}")).with("out.toml", &out);
    }
    Ok(())
}
fn c05_doc(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input(src, ctx);
    check_data(ctx, i)
}
fn c05_value(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input_value(src, ctx);
    check_data(ctx, i)
}
fn c05_directive(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input_directive(src, ctx).filter(|i| !["toml-version", "-order"].iter().any(|w| i.doc.contains(w)));
    check_data(ctx, i)
}
fn c05_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    let i = make(ctx, j["doc"].as_str().unwrap().into(), ver_of(j), opts_of(j));
    check_data(ctx, i)
}

// ------------------------------------------------------------ C06
fn check_idempotent(ctx: &mut Ctx, i: Option<In>) -> CaseResult {
    let Some(i) = i else { return Ok(()) };
    let out = fmt(ctx, &i)?;
    non_trivial(ctx, &i, &out);
    let again = match tom::format(ctx, &out, i.ver, &i.opts) {
        Ok(s) => s,
        Err(d) => return fail("reformat-error", format!("the output cannot be formatted: {}", tom::show_diags(&d))).with("out.toml", &out),
    };
    if again != out {
        let first_block = leading_block(&out, &reftoml::parse(&out, i.ver).map(|d| d.toks).unwrap_or_default());
        if first_block.iter().any(|c| c.starts_with("#:")) {
            return fail("document-directive-moves-to-first-item", "formatting the output again changes it").with("out1.toml", &out).with("out2.toml", &again);
        }
        if let Some(joined) = without_inner_blank_lines(&i) {
            let once = tom::format(ctx, &joined, i.ver, &i.opts).unwrap_or_default();
            if tom::format(ctx, &once, i.ver, &i.opts).ok() == Some(once) {
                return fail("blank-line-groups-joined", "formatting the output again changes it").with("out1.toml", &out).with("out2.toml", &again);
            }
        }
        if value_directive_moves(&i) {
            return fail("value-directive-beside-document-directive", "formatting the output again changes it").with("out1.toml", &out).with("out2.toml", &again);
        }
        let r = i.opts.rules.as_ref().unwrap();
        // what kind of line changes
        let (a, b) = out.lines().zip(again.lines()).find(|(a, b)| a != b).unwrap_or(("", ""));
        let what = if a.trim() == b.trim() {
            "indent"
        } else if a.replace(' ', "") == b.replace(' ', "") {
            "spaces"
        } else if a.is_empty() || b.is_empty() {
            "blank-lines"
        } else {
            "layout"
        };
        return fail(
            format!("not-idempotent:{what}{}", if r.line_width.is_some() { "-width" } else { "" }),
            "formatting the output again changes it".to_string(),
        )
        .with("out1.toml", &out)
        .with("out2.toml", &again);
    }
    Ok(())
}
/// the comments right above the first item hold both a document directive and a value directive:
/// formatting moves all of them to the top of the document (known finding)
fn value_directive_moves(i: &In) -> bool {
    let block = leading_block(&i.doc, &i.parsed.toks);
    block.iter().any(|c| c.starts_with("#:"))
        && block.iter().any(|c| c.trim_start_matches(['#', ' ', '\t']).starts_with("tombi:"))
}
/// the document without the blank lines inside its arrays and inline tables, if it has any
fn without_inner_blank_lines(i: &In) -> Option<String> {
    let mut out = String::new();
    let (mut depth, mut nl, mut at) = (0, 0, 0);
    for t in &i.parsed.toks {
        match t.t {
            T::ArrOpen | T::InlOpen => depth += 1,
            T::ArrClose | T::InlClose => depth -= 1,
            _ => {}
        }
        nl = if t.t == T::Newline { nl + 1 } else { 0 };
        if nl > 1 && depth > 0 {
            out += &i.doc[at..t.s];
            at = t.e;
        }
    }
    out += &i.doc[at..];
    (out != i.doc).then_some(out)
}
/// the comments right above the first item, when nothing else is before it
fn leading_block(doc: &str, toks: &[reftoml::Tok]) -> Vec<String> {
    let mut block = vec![];
    let mut nl = 0;
    for t in toks {
        match t.t {
            T::Newline => nl += 1,
            T::Comment => {
                if nl > 1 && !block.is_empty() {
                    return vec![];
                }
                nl = 0;
                block.push(doc[t.s..t.e].to_string());
            }
            _ => break,
        }
    }
    if nl <= 1 { block } else { vec![] }
}
fn c06_doc(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input(src, ctx);
    check_idempotent(ctx, i)
}
fn c06_value(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input_value(src, ctx);
    check_idempotent(ctx, i)
}
fn c06_directive(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input_directive(src, ctx).filter(|i| !i.doc.contains("toml-version"));
    check_idempotent(ctx, i)
}
fn c06_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    let i = make(ctx, j["doc"].as_str().unwrap().into(), ver_of(j), opts_of(j));
    check_idempotent(ctx, i)
}

// ------------------------------------------------------------ C07
/// one comment and where it is
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Com {
    pub text: String,
    /// the token before it on its line (a comma counts as the value before it)
    pub trailing_of: Option<String>,
    /// the first token of the item right below its block, when no blank line is between them
    pub above: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Seq {
    Com(usize),
    Tok(String),
}
fn tok_text(doc: &str, t: &reftoml::Tok, ver: Ver) -> String {
    let text = &doc[t.s..t.e];
    match t.t {
        T::Key => reftoml::parse_tbl(&format!("{text} = 1"), ver).map(|r| format!("key {:?}", r[0].0)).unwrap_or_else(|_| text.into()),
        T::Scalar => reftoml::parse_tbl(&format!("a = {text}"), ver).map(|r| format!("{:?}", r[0].1).replace("\\r\\n", "\\n")).unwrap_or_else(|_| text.into()),
        _ => format!("{:?}", t.t),
    }
}
pub fn comments(doc: &str, d: &Doc, ver: Ver) -> (Vec<Com>, Vec<Seq>) {
    let (mut coms, mut seq) = (vec![], vec![]);
    let toks = &d.toks;
    let mut prev_on_line: Option<String> = None;
    let mut last = String::new();
    for (n, t) in toks.iter().enumerate() {
        match t.t {
            T::Newline => prev_on_line = None,
            T::Comma => {
                prev_on_line = Some(last.clone());
            }
            T::Comment => {
                // `#!` and repeated `#` are prefixes
                let text = &doc[t.s..t.e];
                let text = text.strip_prefix("#!").unwrap_or(text.trim_start_matches('#')).trim_matches([' ', '\t']).to_string();
                let mut above = None;
                if prev_on_line.is_none() {
                    // newline comment newline comment newline item
                    let mut k = n + 1;
                    let mut nl = 0;
                    while let Some(x) = toks.get(k) {
                        match x.t {
                            T::Newline => nl += 1,
                            T::Comment => nl = 0,
                            _ => break,
                        }
                        if nl > 1 {
                            break;
                        }
                        k += 1;
                    }
                    if nl == 1 && let Some(x) = toks.get(k) {
                        if !matches!(x.t, T::ArrClose | T::InlClose | T::Comma) {
                            above = Some(tok_text(doc, x, ver));
                        }
                    }
                }
                seq.push(Seq::Com(coms.len()));
                coms.push(Com { text, trailing_of: prev_on_line.clone(), above });
            }
            _ => {
                last = tok_text(doc, t, ver);
                prev_on_line = Some(last.clone());
                seq.push(Seq::Tok(last.clone()));
            }
        }
    }
    (coms, seq)
}
/// For every comment: whether it is on a line of its own right below another such line, and the space before its text
fn inner_indent(doc: &str, d: &Doc) -> Vec<(bool, String)> {
    let own = |n: usize| n.checked_sub(1).is_none_or(|k| d.toks[k].t == T::Newline);
    let mut v = vec![];
    for (n, t) in d.toks.iter().enumerate().filter(|x| x.1.t == T::Comment) {
        let below = n >= 2 && own(n) && d.toks[n - 2].t == T::Comment && own(n - 2);
        let text = &doc[t.s..t.e];
        let text = text.strip_prefix("#!").unwrap_or(text.trim_start_matches('#'));
        let rest = text.trim_start_matches([' ', '\t']);
        v.push((below && !rest.is_empty(), text[..text.len() - rest.len()].to_string()));
    }
    v
}
fn check_comments(ctx: &mut Ctx, i: Option<In>) -> CaseResult {
    let Some(i) = i else { return Ok(()) };
    let out = fmt(ctx, &i)?;
    let Ok(d) = reftoml::parse(&out, i.ver) else { return fail("invalid-output", "the output is not valid TOML").with("out.toml", &out) };
    let (a, sa) = comments(&i.doc, &i.parsed, i.ver);
    let (b, sb) = comments(&out, &d, i.ver);
    if a.is_empty() {
        return Ok(());
    }
    non_trivial(ctx, &i, &out);
    let r = |sig: &str, msg: String| fail(sig, msg).with("out.toml", &out);
    let (mut ta, mut tb): (Vec<&String>, Vec<&String>) = (a.iter().map(|c| &c.text).collect(), b.iter().map(|c| &c.text).collect());
    ta.sort();
    tb.sort();
    if ta != tb {
        return r("comment-set", format!("the comments are {ta:?} before and {tb:?} after formatting"));
    }
    let toks = |s: &[Seq]| s.iter().filter(|x| matches!(x, Seq::Tok(_))).cloned().collect::<Vec<_>>();
    let same_order = toks(&sa) == toks(&sb);
    ctx.label_if(!same_order, "items reordered");
    if same_order {
        if let Some((x, y)) = sa.iter().zip(&sb).find(|(x, y)| match (x, y) {
            (Seq::Com(m), Seq::Com(n)) => a[*m].text != b[*n].text,
            (x, y) => x != y,
        }) {
            return r("comment-moved", format!("in the sequence of comments and tokens, {x:?} became {y:?}"));
        }
    }
    if same_order && !eff(&i.opts).preserve_comments {
        let (x, y) = (inner_indent(&i.doc, &i.parsed), inner_indent(&out, &d));
        for (n, (x, y)) in x.iter().zip(&y).enumerate() {
            if x.0 {
                let want = format!(" {}", x.1.get(1..).unwrap_or(""));
                ctx.label_if(want.len() > 1, "indented comment line");
                if y.1 != want {
                    return r("comment-indent", format!("the line {:?} of a block of comments has {:?} before it, not {want:?}", a[n].text, y.1));
                }
            }
        }
    }
    // where each comment is, in order or, for reordered documents, as a multiset
    let (mut pa, mut pb) = (a.clone(), b.clone());
    if !same_order {
        pa.sort();
        pb.sort();
    }
    for (x, y) in pa.iter().zip(&pb) {
        let line = same_order || x.text == y.text;
        if line && x.trailing_of != y.trailing_of {
            ctx.label("moved");
            return r("trailing", format!("{x:?} became {y:?}"));
        }
        if same_order && x.above.is_some() && x.above != y.above {
            return r("above", format!("{x:?} became {y:?}"));
        }
    }
    ctx.label_if(a.iter().any(|c| c.trailing_of.is_some()), "trailing comment");
    ctx.label_if(a.iter().any(|c| c.above.is_some()), "comment above an item");
    ctx.label_if(a.iter().any(|c| c.above.is_none() && c.trailing_of.is_none()), "free comment");
    Ok(())
}
fn c07_doc(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input(src, ctx);
    check_comments(ctx, i)
}
fn c07_value(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input_value(src, ctx);
    check_comments(ctx, i)
}
fn c07_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    let i = make(ctx, j["doc"].as_str().unwrap().into(), ver_of(j), opts_of(j));
    check_comments(ctx, i)
}

// ------------------------------------------------------------ C08
/// the effective values of the rules
struct Eff {
    eq: String,
    arr_bracket: String,
    arr_comma: String,
    inl_brace: String,
    inl_comma: String,
    trailing: String,
    align_eq: bool,
    align_comment: bool,
    unit: String,
    sub: bool,
    kv: bool,
    group_limit: usize,
    table_blank: usize,
    quote: StringQuoteStyle,
    key_quote: StringQuoteStyle,
    delim: Option<char>,
    preserve_comments: bool,
    width: Option<usize>,
    ending: LineEnding,
}
fn eff(o: &FormatOptions) -> Eff {
    let j = serde_json::to_value(o.rules.clone().unwrap_or_default()).unwrap();
    let n = |k: &str, d: u64| j[k].as_u64().unwrap_or(d) as usize;
    let sp = |k: &str, d: u64| " ".repeat(n(k, d));
    let b = |k: &str| j[k].as_bool().unwrap_or(false);
    let q = |k: &str| match j[k].as_str() {
        Some("single") => Some(StringQuoteStyle::Single),
        Some("preserve") => Some(StringQuoteStyle::Preserve),
        Some("double") => Some(StringQuoteStyle::Double),
        _ => None,
    };
    Eff {
        eq: sp("key-value-equals-sign-space-width", 1),
        arr_bracket: sp("array-bracket-space-width", 0),
        arr_comma: sp("array-comma-space-width", 1),
        inl_brace: sp("inline-table-brace-space-width", 1),
        inl_comma: sp("inline-table-comma-space-width", 1),
        trailing: sp("trailing-comment-space-width", 2),
        align_eq: b("key-value-equals-sign-alignment"),
        align_comment: b("trailing-comment-alignment"),
        unit: if j["indent-style"] == "tab" { "\t".into() } else { sp("indent-width", 2) },
        sub: b("indent-sub-tables"),
        kv: b("indent-table-key-value-pairs"),
        group_limit: n("group-blank-lines-limit", 1),
        table_blank: n("table-blank-lines", 1),
        quote: q("string-quote-style").unwrap_or(StringQuoteStyle::Double),
        key_quote: q("key-quote-style").or(q("string-quote-style")).unwrap_or(StringQuoteStyle::Double),
        delim: match j["date-time-delimiter"].as_str() {
            Some("space") => Some(' '),
            Some("preserve") => None,
            _ => Some('T'),
        },
        preserve_comments: j["comment-style"] == "preserve",
        width: j["line-width"].as_u64().map(|x| x as usize),
        ending: match j["line-ending"].as_str() {
            Some("lf") => LineEnding::Lf,
            Some("crlf") => LineEnding::Crlf,
            _ => LineEnding::Auto,
        },
    }
}
fn check_rules(ctx: &mut Ctx, i: Option<In>) -> CaseResult {
    let Some(i) = i else { return Ok(()) };
    let out = fmt(ctx, &i)?;
    let Ok(d) = reftoml::parse(&out, i.ver) else { return fail("invalid-output", "the output is not valid TOML").with("out.toml", &out) };
    non_trivial(ctx, &i, &out);
    rules_obeyed(ctx, &i, &out, &d).with("out.toml", &out)
}
fn graphemes(x: &str) -> usize {
    unicode_segmentation::UnicodeSegmentation::graphemes(x, true).count()
}
/// The key-values with the header above them
fn key_values(d: &Doc) -> Vec<(Option<&Vec<String>>, &reftoml::Stmt)> {
    let mut h = None;
    let mut v = vec![];
    for s in &d.stmts {
        match s.kind {
            StmtKind::KeyValue => v.push((h, s)),
            _ => h = Some(&s.path),
        }
    }
    v
}
/// Nothing in the value of the input asks for several lines: no comment, no trailing comma, no line break in a string
fn may_be_single(i: &In, s: &reftoml::Stmt) -> bool {
    let mut comma = false;
    for t in i.parsed.toks.iter().filter(|t| t.s >= s.key_end && t.e <= s.end) {
        match t.t {
            T::Comment => return false,
            T::Scalar if i.doc[t.s..t.e].contains('\n') => return false,
            T::ArrClose | T::InlClose if comma => return false,
            T::Newline => {}
            x => comma = x == T::Comma,
        }
    }
    true
}
/// Columns of the tokens of a value in a single line
fn single_width(e: &Eff, out: &str, vt: &[&reftoml::Tok]) -> usize {
    let vt: Vec<_> = vt.iter().filter(|t| t.t != T::Newline).collect();
    // formatting over lines may have added trailing commas
    let vt: Vec<_> = vt.iter().enumerate().filter(|(n, t)| t.t != T::Comma || !matches!(vt[n + 1].t, T::ArrClose | T::InlClose)).map(|x| *x.1).collect();
    let mut open = vec![];
    let mut n = 0;
    for (k, t) in vt.iter().enumerate() {
        let next = vt.get(k + 1).map(|t| t.t);
        n += graphemes(&out[t.s..t.e]);
        n += match t.t {
            T::ArrOpen | T::InlOpen => {
                open.push(t.t);
                match (t.t, next) {
                    (T::ArrOpen, Some(T::ArrClose)) | (T::InlOpen, Some(T::InlClose)) => 0,
                    (T::ArrOpen, _) => e.arr_bracket.len(),
                    _ => e.inl_brace.len(),
                }
            }
            T::ArrClose | T::InlClose => {
                open.pop();
                0
            }
            T::Comma if open.last() == Some(&T::ArrOpen) => e.arr_comma.len(),
            T::Comma => e.inl_comma.len(),
            T::Eq => e.eq.len(),
            _ => 0,
        };
        n += match (t.t, next) {
            (T::ArrOpen | T::InlOpen, Some(T::ArrClose | T::InlClose)) => 0,
            (_, Some(T::ArrClose)) => e.arr_bracket.len(),
            (_, Some(T::InlClose)) => e.inl_brace.len(),
            (_, Some(T::Eq)) => e.eq.len(),
            _ => 0,
        };
    }
    n
}
fn rules_obeyed(ctx: &mut Ctx, i: &In, out: &str, d: &Doc) -> CaseResult {
    let e = eff(&i.opts);
    let toks = &d.toks;
    let txt = |t: &reftoml::Tok| &out[t.s..t.e];
    // line endings
    let has_crlf = i.parsed.toks.iter().any(|t| t.t == T::Newline && t.e - t.s == 2);
    let all_crlf = has_crlf && i.parsed.toks.iter().all(|t| t.t != T::Newline || t.e - t.s == 2);
    let allowed: &[&str] = match e.ending {
        LineEnding::Lf => &["\n"],
        LineEnding::Crlf => &["\r\n"],
        LineEnding::Auto if all_crlf => &["\r\n"],
        LineEnding::Auto if !i.doc.contains('\r') => &["\n"],
        LineEnding::Auto => &["\n", "\r\n"],
    };
    let first_nl = toks.iter().find(|t| t.t == T::Newline).map(txt);
    for t in toks.iter().filter(|t| t.t == T::Newline) {
        ensure!(allowed.contains(&txt(t)) && Some(txt(t)) == first_nl, "line-ending", "line ending {:?} at {}", txt(t), t.s);
    }
    // the end
    let nl = first_nl.unwrap_or("\n");
    ensure!(i.parsed.toks.iter().all(|t| t.t == T::Newline) == out.is_empty(), "empty", "empty output does not match empty input");
    ensure!(out.is_empty() || out.ends_with(nl) && !out.trim_end_matches([' ', '\t']).ends_with(&format!("{nl}{nl}")) && out.len() > nl.len(), "final-newline", "the end is {:?}", &out[out.len().saturating_sub(6)..].to_string());
    // pairs of tokens
    let mut depth: Vec<(T, bool)> = vec![]; // open brackets, and whether items have their own lines
    let mut table_depth = 0usize; // of the key-values of the current table
    let mut next_stmt = 0;
    let mut headers: Vec<&Vec<String>> = vec![];
    let kv_bonus = e.kv as usize;
    let mut header_depth = 0;
    for (n, t) in toks.iter().enumerate() {
        let prev = n.checked_sub(1).map(|k| &toks[k]);
        let gap = &out[prev.map_or(0, |p| p.e)..t.s];
        let first = prev.is_none_or(|p| p.t == T::Newline);
        if matches!(t.t, T::ArrClose | T::InlClose) && !depth.is_empty() {
            depth.pop();
        }
        let inner = depth.last().map(|d| d.0);
        let levels = depth.iter().filter(|d| d.1).count();
        if t.t == T::Newline {
            let keep = e.preserve_comments && prev.is_some_and(|p| p.t == T::Comment);
            ensure!(gap.is_empty(), "trailing-space", "{gap:?} before the line ending at {}", t.s);
            ensure!(keep || !out[..t.s].ends_with([' ', '\t']), "trailing-space", "white space before the line ending at {}", t.s);
            continue;
        }
        if d.stmts.get(next_stmt).is_some_and(|s| s.start == t.s) {
            let s = &d.stmts[next_stmt];
            next_stmt += 1;
            if s.kind != StmtKind::KeyValue {
                let mut parents: Vec<&Vec<String>> = headers.iter().rev().take_while(|h| h[0] == s.path[0]).filter(|h| h.len() < s.path.len() && s.path.starts_with(h)).copied().collect();
                parents.sort();
                parents.dedup();
                header_depth = if e.sub { parents.len() } else { 0 };
                table_depth = header_depth + kv_bonus;
                headers.push(&s.path);
            }
        }
        if first {
            let want = match t.t {
                T::HdrOpen | T::AotOpen => Some(header_depth),
                T::Comment if depth.is_empty() => {
                    // of this section, or of the next header when it is right above it
                    let ok = |k: usize| gap == e.unit.repeat(k);
                    let nh = d.stmts[next_stmt..].iter().find(|s| s.kind != StmtKind::KeyValue);
                    let next_is_header = d.stmts.get(next_stmt).is_some_and(|s| s.kind != StmtKind::KeyValue);
                    let good = ok(table_depth) || (next_is_header && nh.is_some() && (e.sub && gap.len() % e.unit.len().max(1) == 0 || ok(0)));
                    ensure!(good, "comment-indent", "a comment at {} is indented by {gap:?}", t.s);
                    None
                }
                _ => Some(table_depth + levels),
            };
            if let Some(want) = want {
                ensure!(gap == e.unit.repeat(want), "indent", "{:?} at {} is indented by {gap:?} instead of {want} levels of {:?}", t.t, t.s, e.unit);
                ctx.label_if(want > 0, "indented lines");
            }
        } else {
            let p = prev.unwrap();
            let exact = |sig: &str, want: &str| -> CaseResult {
                ensure!(gap == want, format!("space:{sig}"), "{gap:?} instead of {want:?} between {:?} and {:?} at {}", p.t, t.t, t.s);
                Ok(())
            };
            let at_least = |sig: &str, want: &str| -> CaseResult {
                ensure!(gap.len() >= want.len() && gap.bytes().all(|b| b == b' '), format!("space:{sig}"), "{gap:?} instead of at least {want:?} between {:?} and {:?} at {}", p.t, t.t, t.s);
                Ok(())
            };
            match (p.t, t.t) {
                (_, T::Comment) if e.align_comment => at_least("comment", &e.trailing)?,
                (_, T::Comment) => exact("comment", &e.trailing)?,
                (T::Key, T::Eq) if e.align_eq => at_least("eq", &e.eq)?,
                (T::Key, T::Eq) | (T::Eq, _) => exact("eq", &e.eq)?,
                (T::ArrOpen, T::ArrClose) | (T::InlOpen, T::InlClose) => exact("empty", "")?,
                (_, T::Comma) => exact("before-comma", "")?,
                (T::ArrOpen, _) | (_, T::ArrClose) => exact("bracket", &e.arr_bracket)?,
                (T::InlOpen, _) | (_, T::InlClose) => exact("brace", &e.inl_brace)?,
                (T::Comma, _) if inner == Some(T::ArrOpen) => exact("array-comma", &e.arr_comma)?,
                (T::Comma, _) => exact("inline-comma", &e.inl_comma)?,
                _ => exact("other", "")?,
            }
        }
        match t.t {
            T::ArrOpen | T::InlOpen => depth.push((t.t, toks.get(n + 1).is_some_and(|x| matches!(x.t, T::Newline | T::Comment)))),
            T::Key | T::Scalar => {
                let x = txt(t);
                let style = if t.t == T::Key { e.key_quote } else { e.quote };
                let multi = t.t == T::Scalar && (x.starts_with("\"\"\"") || x.starts_with("'''"));
                let bad = match style {
                    _ if multi || x.len() < 2 => false,
                    StringQuoteStyle::Double => x.starts_with('\'') && !x.contains(['"', '\\']),
                    StringQuoteStyle::Single => x.starts_with('"') && !x[1..x.len() - 1].contains(['\'', '\\', '"']),
                    StringQuoteStyle::Preserve => false,
                };
                ensure!(!bad, "quotes", "{x} does not have the configured quotes");
                if t.t == T::Scalar
                    && let Some(delim) = e.delim
                    && let Ok((dt, _)) = reftoml::parse_dt(x, i.ver)
                    && dt.date.is_some()
                    && dt.time.is_some()
                {
                    ctx.label("date-time delimiter");
                    ensure!(x.as_bytes()[10] as char == delim, "date-time-delimiter", "{x} does not have the delimiter {delim:?}");
                }
            }
            _ => {}
        }
    }
    // preserve styles: the same tokens as before
    let same = |kind: T, f: fn(&str) -> String| {
        let mut a: Vec<String> = i.parsed.toks.iter().filter(|t| t.t == kind).map(|t| f(&i.doc[t.s..t.e])).collect();
        let mut b: Vec<String> = toks.iter().filter(|t| t.t == kind).map(|t| f(txt(t))).collect();
        a.sort();
        b.sort();
        a == b
    };
    let quotes: fn(&str) -> String = |x| if x.starts_with(['"', '\'']) { x.replace("\r\n", "\n") } else { String::new() };
    if e.quote == StringQuoteStyle::Preserve {
        ensure!(same(T::Scalar, quotes), "quotes-preserve", "strings changed with quote style preserve");
        ctx.label("quotes preserved");
    }
    if e.key_quote == StringQuoteStyle::Preserve {
        ensure!(same(T::Key, quotes), "key-quotes-preserve", "keys changed with quote style preserve");
    }
    if e.delim.is_none() {
        ensure!(same(T::Scalar, |x| if x.starts_with(|c: char| c.is_ascii_digit()) { x.into() } else { String::new() }), "date-preserve", "date-times changed with delimiter preserve");
    }
    if e.preserve_comments {
        ensure!(same(T::Comment, |x| x.trim_end().into()), "comment-preserve", "comments changed with comment style preserve");
    }
    // blank lines
    let mut n = 0;
    while n < toks.len() {
        let mut k = n;
        while toks.get(k).is_some_and(|t| t.t == T::Newline) {
            k += 1;
        }
        if k > n && n > 0 && k < toks.len() {
            let blank = k - n - 1;
            let before_header = matches!(toks[k].t, T::HdrOpen | T::AotOpen);
            let after_comment = toks[n - 1].t == T::Comment && n.checked_sub(2).is_none_or(|m| toks[m].t == T::Newline);
            let after_header = matches!(toks[n - 1].t, T::HdrClose | T::AotClose);
            let comment = toks[k].t == T::Comment;
            let limit = if before_header || comment { e.group_limit.max(e.table_blank) } else { e.group_limit };
            ensure!(blank <= limit, "blank-lines", "{blank} blank lines before {:?} at {}", toks[k].t, toks[k].s);
            if before_header && !after_comment && !after_header && !matches!(toks[n - 1].t, T::Comment) {
                ensure!(blank == e.table_blank, "table-blank-lines", "{blank} blank lines before the header at {}", toks[k].s);
                ctx.label("header after key-values");
            }
            ctx.label_if(blank > 0, "blank lines");
        }
        n = k.max(n + 1);
    }
    // alignment of neighbouring key-values
    let line_of = |at: usize| out[..at].matches('\n').count();
    let col = |at: usize| {
        let s = out[..at].rfind('\n').map_or(0, |x| x + 1);
        unicode_segmentation::UnicodeSegmentation::graphemes(&out[s..at], true).count()
    };
    for w in d.stmts.windows(2) {
        let (a, b) = (&w[0], &w[1]);
        if a.kind != StmtKind::KeyValue || b.kind != StmtKind::KeyValue || line_of(a.end) + 1 != line_of(b.start) {
            continue;
        }
        let eq = |s: &reftoml::Stmt| toks.iter().find(|t| t.s >= s.key_end && t.t == T::Eq).unwrap().s;
        if e.align_eq {
            ensure!(col(eq(a)) == col(eq(b)), "align-eq", "the equals signs at {} and {} are not aligned", eq(a), eq(b));
            ctx.label("aligned equals signs");
        }
        let com = |s: &reftoml::Stmt| toks.iter().find(|t| t.s >= s.end && matches!(t.t, T::Comment | T::Newline)).filter(|t| t.t == T::Comment && !out[s.start..t.s].contains('\n')).map(|t| t.s);
        if e.align_comment && let (Some(x), Some(y)) = (com(a), com(b)) {
            ensure!(col(x) == col(y), "align-comment", "the comments at {x} and {y} are not aligned");
            ctx.label("aligned comments");
        }
    }
    // no more space than the longest key of a group needs
    if e.align_eq {
        let mut min: Option<(usize, usize)> = None;
        for (n, s) in d.stmts.iter().enumerate() {
            if s.kind == StmtKind::KeyValue {
                let eq = toks.iter().find(|t| t.s >= s.key_end && t.t == T::Eq).unwrap().s;
                let gap = eq - s.key_end;
                if min.is_none_or(|m| gap < m.0) {
                    min = Some((gap, eq));
                }
            }
            let ends = d.stmts.get(n + 1).is_none_or(|b| b.kind != StmtKind::KeyValue || out[s.end..b.start].contains(&format!("{nl}{nl}")));
            if ends && let Some((gap, at)) = min.take() {
                ensure!(gap == e.eq.len(), "align-eq-excess", "{gap} spaces before the equals sign at {at} of the longest key");
            }
        }
    }
    // line width and one item per line
    // tables may move, those of an array of tables keep their order
    let mut before: std::collections::HashMap<_, std::collections::VecDeque<&reftoml::Stmt>> = Default::default();
    for (h, s) in key_values(&i.parsed) {
        before.entry((h, &s.path)).or_default().push_back(s);
    }
    for (h, s) in key_values(d) {
        let was = before.get_mut(&(h, &s.path)).and_then(|b| b.pop_front());
        let vt: Vec<&reftoml::Tok> = toks.iter().filter(|t| t.s >= s.key_end && t.e <= s.end).skip(1).collect();
        let Some(open) = vt.first() else { continue };
        if open.t != T::ArrOpen && !(open.t == T::InlOpen && i.ver == Ver::V11) {
            continue;
        }
        let text = &out[open.s..s.end];
        let comment = toks.iter().find(|t| t.s >= s.end && matches!(t.t, T::Comment | T::Newline)).filter(|t| t.t == T::Comment);
        if let Some(w) = e.width
            && was.is_some_and(|b| may_be_single(i, b))
            && (!e.align_comment || comment.is_none())
        {
            let width = col(open.s) + single_width(&e, out, &vt) + comment.map_or(0, |c| e.trailing.len() + graphemes(txt(c)));
            let multi = vt.iter().any(|t| t.t == T::Newline);
            let empty = vt.iter().filter(|t| t.t != T::Newline).count() == 2;
            ctx.label(if multi { "too wide for a line" } else { "fits in a line" });
            ensure!(multi == (width > w && !empty), "line-width-exact", "the value at {} takes {width} columns in a line of {w}", open.s);
        }
        if !vt.iter().any(|t| t.t == T::Newline) {
            if let Some(w) = e.width
                && vt.len() > 2
                && !text.contains('\n')
            {
                ctx.label("single-line value with a width limit");
                ensure!(col(s.end) <= w, "line-width", "the value at {} ends at column {} beyond the width {w}", open.s, col(s.end));
            }
        } else {
            let mut stack: Vec<bool> = vec![];
            for (k, t) in vt.iter().enumerate() {
                let nl_next = vt.get(k + 1).is_some_and(|x| matches!(x.t, T::Newline | T::Comment));
                match t.t {
                    T::ArrOpen | T::InlOpen => stack.push(nl_next),
                    T::Comma if stack.last() == Some(&true) => ensure!(nl_next, "one-per-line", "more than one item on a line after {}", t.s),
                    T::Comma => ensure!(!nl_next, "one-per-line", "a line break in a single-line value after {}", t.s),
                    T::ArrClose | T::InlClose => {
                        let multi = stack.pop() == Some(true);
                        ensure!(multi == (k > 0 && vt[k - 1].t == T::Newline), "one-per-line", "the closing bracket at {} does not match the opening one", t.s);
                    }
                    _ => {}
                }
            }
            ctx.label("multi-line value");
        }
    }
    Ok(())
}
fn c08_doc(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input(src, ctx);
    check_rules(ctx, i)
}
fn c08_value(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = input_value(src, ctx);
    check_rules(ctx, i)
}
fn c08_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    let i = make(ctx, j["doc"].as_str().unwrap().into(), ver_of(j), opts_of(j));
    check_rules(ctx, i)
}

// ------------------------------------------------------------ C09
const C09_INVALID: &[&str] = &["= 1", "a = ", "[a", "a = [1", "a b = 1", "a = 01", "a = \"x", "]", "a = {b = 1", "a == 1", "[[a]", "a = 1 b = 2", "a = tru", "\u{0}"];
fn c09_error(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = g::Cfg::random(src);
    cfg.max_stmts = cfg.max_stmts.min(8);
    let doc = g::document(src, &cfg);
    let doc = match src.below(4) {
        0 => g::mutate(src, &doc),
        1 => g::mutate_lines(src, &doc),
        _ => {
            let mut l: Vec<String> = doc.split_inclusive('\n').map(|s| s.to_string()).collect();
            let at = src.usize(0, l.len());
            l.insert(at, format!("{}\n", src.pick(C09_INVALID)));
            l.concat()
        }
    };
    let opts = FormatOptions { rules: Some(rules(src)) };
    ctx.attach("doc.toml", &doc);
    ctx.attach("rules.json", &show_rules(opts.rules.as_ref().unwrap()));
    ctx.attach("version", cfg.ver.text());
    // a text that breaks the grammar in every version; redefinitions are no syntax errors
    let syntax = tom::parse_errors(&doc);
    let invalid = [Ver::V10, Ver::V11].iter().all(|v| matches!(reftoml::parse(&doc, *v), Err(Bad::Invalid(..))));
    let r = tom::format(ctx, &doc, cfg.ver, &opts);
    match r {
        Err(d) => {
            ensure!(!d.is_empty(), "no-diagnostics", "formatting fails without a diagnostic");
            ensure!(!syntax.is_empty(), "error-without-syntax-error", "formatting fails on a text without a syntax error: {}", tom::show_diags(&d));
            ctx.label("syntax error");
            ctx.nontrivial(&doc);
            ctx.sample(format!("{doc:?} -> {}", tom::show_diags(&d)));
        }
        Ok(out) => {
            ctx.attach("out.toml", &out);
            ensure!(syntax.is_empty(), "formatted-broken", "a text with a syntax error ({}) is formatted", syntax[0]);
            ctx.label_if(invalid, "invalid for another reason than syntax");
        }
    }
    Ok(())
}
const DISABLE: &[&str] = &["#:tombi format.disabled = true", "#:tombi format.disabled=true", "#:tombi format = { disabled = true }", "#:tombi format.disabled = true, x = 1", "#:tombi toml-version = \"v1.0.0\"\n#:tombi format.disabled = true", "# note\n#:tombi format.disabled = true"];
const ENABLE: &[&str] = &["#:tombi format.disabled = false", "#:tombi lint.disabled = true", "# tombi: format.disabled = true", "# format.disabled = true", "#tombi format.disabled = true", "# :tombi format.disabled = true", "#:tombi format.disable = true"];
/// a directive that disables formatting at the top, or something like it, or one further down
fn c09_disabled(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = g::Cfg::random(src);
    cfg.mixed_nl = false;
    cfg.max_stmts = cfg.max_stmts.min(6);
    cfg.comments = *src.pick(&[0, 100, 400]);
    let body = g::document(src, &cfg);
    let nl = cfg.nl;
    let opts = FormatOptions { rules: Some(rules(src)) };
    let head = |src: &mut Src| match src.below(4) {
        0 => String::new(),
        1 => nl.to_string(),
        2 => format!("# first{nl}"),
        _ => format!("# first{nl}{nl}"),
    };
    let sep = if src.bool() { nl.to_string() } else { String::new() };
    let kind = src.below(3);
    let (doc, disabled) = match kind {
        0 => {
            let d = src.pick(DISABLE).replace('\n', nl);
            (format!("{}{d}{nl}{sep}{body}", head(src)), true)
        }
        1 => {
            let d = src.pick(ENABLE);
            (format!("{}{d}{nl}{sep}{body}", head(src)), false)
        }
        _ => {
            // below the first item
            let d = src.pick(DISABLE).replace('\n', nl);
            let trailing = src.bool() && !d.contains('\n');
            let first = "first-key = 1";
            if trailing { (format!("{first} {d}{nl}{sep}{body}"), false) } else { (format!("{first}{nl}{sep}{d}{nl}{sep}{body}"), false) }
        }
    };
    // `x = 1` after a comma is no TOML: the directive is broken
    let disabled = disabled && !doc.contains(", x = 1");
    let Some(i) = make(ctx, doc, cfg.ver, opts) else { return Ok(()) };
    let out = match tom::format(ctx, &i.doc, i.ver, &i.opts) {
        Ok(s) => s,
        Err(d) => return fail("format-error", format!("formatting a valid document fails: {}", tom::show_diags(&d))),
    };
    ctx.attach("out.toml", &out);
    if disabled {
        ctx.label("disabled");
        ctx.nontrivial(&i.doc);
        ctx.sample(format!("{:?} unchanged", i.doc));
        ensure!(out == i.doc, "disabled-changed", "a document that disables formatting is changed");
    } else {
        // the same document with the word broken must be formatted to the same text
        let neutral = i.doc.replace("format.disabled", "format.disablex").replace("{ disabled", "{ disablex");
        let n_out = match tom::format(ctx, &neutral, i.ver, &i.opts) {
            Ok(s) => s,
            Err(d) => return fail("format-error", format!("formatting fails: {}", tom::show_diags(&d))),
        };
        ctx.attach("neutral.toml", &n_out);
        let fix = |s: &str| s.replace("disablex", "disabled");
        ctx.label(if kind == 2 { "directive elsewhere" } else { "lookalike at the top" });
        if n_out != neutral {
            ctx.nontrivial(&i.doc);
        }
        ensure!(fix(&n_out) == out, "not-disabled-unchanged", "a directive that disables nothing changes the result");
    }
    Ok(())
}
fn c09_probe(j: &J, ctx: &mut Ctx) -> CaseResult {
    let Some(i) = make(ctx, j["doc"].as_str().unwrap().into(), ver_of(j), opts_of(j)) else { return Ok(()) };
    let out = tom::format(ctx, &i.doc, i.ver, &i.opts).unwrap_or_default();
    ensure!((out == i.doc) == j["disabled"].as_bool().unwrap_or(true), "disabled-changed", "formatting gives {out:?}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let s = |name, quick, thorough, case| Stream { name, quick, thorough, case };
    vec![
        Prop {
            id: "C05",
            rule: "a valid document with at least one token that formatting changes; distinct by text and options",
            assumptions: &["the reference parser decides what data a text holds", "line endings inside multi-line strings compare modulo CRLF/LF"],
            streams: vec![s("doc", 40_000, 2_000_000, c05_doc), s("value", 40_000, 2_000_000, c05_value), s("directive", 8_000, 500_000, c05_directive)],
            probe: Some(c05_probe),
            min_nontrivial: 300,
        },
        Prop {
            id: "C06",
            rule: "a valid document with at least one token that the first formatting changes; distinct by text and options",
            assumptions: &[],
            streams: vec![s("doc", 40_000, 2_000_000, c06_doc), s("value", 40_000, 2_000_000, c06_value), s("directive", 8_000, 500_000, c06_directive)],
            probe: Some(c06_probe),
            min_nontrivial: 300,
        },
        Prop {
            id: "C07",
            rule: "a valid document with at least one comment that formatting changes; distinct by text and options",
            assumptions: &["no comment directives", "commas do not count as items: the comment after a comma belongs to the value before it"],
            streams: vec![s("doc", 40_000, 2_000_000, c07_doc), s("value", 40_000, 2_000_000, c07_value)],
            probe: Some(c07_probe),
            min_nontrivial: 300,
        },
        Prop {
            id: "C08",
            rule: "a valid document with at least one token that formatting changes; distinct by text and options",
            assumptions: &["without schema and directives; with mixed line endings `auto` may choose either"],
            streams: vec![s("doc", 60_000, 2_000_000, c08_doc), s("value", 50_000, 2_000_000, c08_value)],
            probe: Some(c08_probe),
            min_nontrivial: 300,
        },
        Prop {
            id: "C09",
            rule: "a text with a syntax error; or a document with a directive that disables formatting; or one whose directive does not and that formatting changes; distinct by text",
            assumptions: &["that a text has a syntax error is what the parser says (C01 checks the parser)"],
            streams: vec![s("error", 60_000, 3_000_000, c09_error), s("disabled", 40_000, 2_000_000, c09_disabled)],
            probe: Some(c09_probe),
            min_nontrivial: 200,
        },
    ]
}
