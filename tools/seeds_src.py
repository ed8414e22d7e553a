from seedlib import seed, CLI, ENV, crate

C = "crates/"
# ---------------------------------------------------------------- formatting
seed("c07-unicode-space", "C07",
  "a comment that ends in a Unicode space (U+3000, U+00A0)",
  "the formatter trims more than ASCII blanks from the end of a comment, so characters of the comment are lost",
  [(C+"tombi-formatter/src/format/comment.rs", "comment_string.trim_ascii_end().chars()", "comment_string.trim_end().chars()")],
  CLI + r'''printf 'a = 1 # \xe5\x80\xa4\xe3\x80\x80\n' > a.toml; cp a.toml want.toml
sed -i 's/1 #/1  #/' want.toml
"$tombi" format --offline a.toml >/dev/null 2>&1
cmp a.toml want.toml
''')
seed("c06-raw-comment-width", "C06",
  "a one-line array whose width with the trailing comment is within one column of line-width, with a comment that formatting lengthens or shortens",
  "the width of an array's trailing comment is measured before it is formatted, so the second formatting decides differently",
  [(C+"tombi-formatter/src/format/value/array.rs", """        length += f
            .format_to_string(&trailing_comment)?
            .graphemes(true)
            .count();
    }

    Ok(f.line_width()
        .is_some_and(|line_width| length > line_width as usize))
}

fn format_multiline_array""", """        length += f.trailing_comment_space().len()
            + trailing_comment.as_ref().to_string().graphemes(true).count();
    }

    Ok(f.line_width()
        .is_some_and(|line_width| length > line_width as usize))
}

fn format_multiline_array""")],
  CLI + r'''printf '[format.rules]\nline-width = 80\n' > tombi.toml
for n in $(seq 40 80); do
  c=$(printf 'x%.0s' $(seq $n))
  printf 'a = [1, 2, 3] #%s\n' "$c" > a.toml
  "$tombi" format --offline a.toml >/dev/null 2>&1
  cp a.toml b.toml
  "$tombi" format --offline b.toml >/dev/null 2>&1
  cmp a.toml b.toml || exit 1
done
''')
# ---------------------------------------------------------------- small libraries
seed("c17-surrogate-or", "C17",
  "a surrogate pair for a character from U+20000 on with an odd plane bit, such as U+10FFFF or U+20BB7",
  "the halves of a surrogate pair are combined with a bitwise or, which loses the carry into bit 16",
  [(C+"tombi-json/src/parser.rs", "let unicode_code_point = 0x10000 + (high << 10) + low;", "let unicode_code_point = 0x10000 | (high << 10) | low;")],
  crate(['tombi-json = { path = "@tombi-json" }'], r'''
fn main() {
    let v = tombi_json::parse("\"\\ud842\\udfb7 \\uDBFF\\uDFFF \\ud83d\\ude00\"").unwrap();
    assert_eq!(v.as_str(), Some("\u{20BB7} \u{10FFFF} \u{1F600}"));
}'''))
seed("c20-columns-as-chars", "C20",
  "a line with a grapheme cluster of several characters before the position",
  "positions are converted to editor positions by characters instead of grapheme clusters",
  [(C+"tombi-text/src/features/lsp/from_lsp.rs", """                line_text
                    .graphemes(true)
                    .take(source.column as usize)
                    .fold(0, |acc, char| acc + line_index.encoding_kind.measure(char))""", """                line_text
                    .char_indices()
                    .take(source.column as usize)
                    .fold(0, |acc, (i, char)| {
                        acc + line_index
                            .encoding_kind
                            .measure(&line_text[i..i + char.len_utf8()])
                    })""")],
  crate(['tombi-text = { path = "@tombi-text", features = ["lsp"] }', 'tower-lsp = { version = "0.20.0", default-features = false, features = ["runtime-tokio"] }'], r'''
use tombi_text::{EncodingKind, IntoLsp, LineIndex, Position};
fn main() {
    let ix = LineIndex::new("e\u{301}x = \"\u{1F600}\" # y", EncodingKind::Utf16);
    for (col, ch) in [(0, 0), (1, 2), (2, 3), (6, 7), (7, 9)] {
        let l: tower_lsp::lsp_types::Position = Position::new(0, col).into_lsp(&ix);
        assert_eq!(l.character, ch, "column {col}");
        let p: Position = l.into_lsp(&ix);
        assert_eq!(p, Position::new(0, col));
    }
}'''))

seed("c08-align-chars", "C08",
  "equals-sign alignment with a quoted key that has a grapheme cluster of several characters",
  "the width used for aligning is counted in characters instead of grapheme clusters",
  [(C+"tombi-formatter/src/types/alignment_width.rs", "UnicodeSegmentation::graphemes(line, true).count() as u32", "line.chars().count() as u32"),
   (C+"tombi-formatter/src/types/alignment_width.rs", "use unicode_segmentation::UnicodeSegmentation;\n\n", "")],
  CLI + r"""printf '[format.rules]\nkey-value-equals-sign-alignment = true\n' > tombi.toml
printf '"e\xcc\x81" = 1\nabc = 2\n' > a.toml; cp a.toml want.toml
"$tombi" format --offline a.toml >/dev/null 2>&1
cmp a.toml want.toml
""")
seed("c18-number-before-text", "C18",
  "a number against text that starts with a character below the digits, after the same separator or operator",
  "numbers always sort before text, also before text that starts with a character sorted below the digits",
  [(C+"tombi-version-sort/src/lib.rs", """                (VersionChunk::Str(ca), VersionChunk::Str(cb))
                | (VersionChunk::Str(ca), VersionChunk::Number { source: cb, .. })
                | (VersionChunk::Number { source: ca, .. }, VersionChunk::Str(cb)) => {
                    match""", """                (VersionChunk::Str(_), VersionChunk::Number { .. }) => {
                    return std::cmp::Ordering::Greater;
                }
                (VersionChunk::Number { .. }, VersionChunk::Str(_)) => {
                    return std::cmp::Ordering::Less;
                }
                (VersionChunk::Str(ca), VersionChunk::Str(cb)) => {
                    match""")],
  crate(['tombi-version-sort = { path = "@tombi-version-sort" }'], r"""
use std::cmp::Ordering::*;
fn main() {
    let f = tombi_version_sort::version_sort;
    assert_eq!(f("a_.b", "a_1"), Less);
    assert_eq!(f("a_1", "a_.b"), Greater);
    assert_eq!(f(".", "1"), Less);
    assert_eq!(f("1", "a"), Less);
}"""))
seed("c19-leap-century", "C19",
  "the 29th of February of a year divisible by 400",
  "a year that ends in 00 is never a leap year",
  [(C+"tombi-date-time/src/private/date_time.rs", """date.year.is_multiple_of(4)
                && (!date.year.is_multiple_of(100) || date.year.is_multiple_of(400));""", """date.year.is_multiple_of(4)
                && (!date.year.is_multiple_of(100) || date.year == 2000);""")],
  crate(['tombi-date-time = { path = "@tombi-date-time" }'], r"""
fn main() {
    for t in ["1600-02-29", "2000-02-29", "2400-02-29", "2024-02-29"] {
        let d: tombi_date_time::LocalDate = t.parse().unwrap();
        assert_eq!(d.to_string(), t);
    }
    for t in ["1900-02-29", "2023-02-29", "2100-02-29"] {
        assert!(t.parse::<tombi_date_time::LocalDate>().is_err());
    }
}"""))
seed("c01-bracket-comment-control", "C01",
  "a control character in the comment on the line of an array's opening bracket",
  "the comment after an array's opening bracket is not checked for control characters",
  [(C+"tombi-document-tree/src/value/array.rs", """            if let Some(comment) = self.bracket_start_trailing_comment() {
                if let Err(error) = crate::support::comment::try_new_comment(&comment) {
                    errors.push(error);
                }
""", """            if let Some(comment) = self.bracket_start_trailing_comment() {
""")],
  CLI + r"""printf 'a = [ # x\001\n 1 ]\n' > bad.toml
printf 'a = [ # x\n 1 ]\n' > good.toml
"$tombi" lint --offline good.toml >/dev/null 2>&1 || exit 3
"$tombi" lint --offline bad.toml >/dev/null 2>&1 && exit 1
exit 0
""")
