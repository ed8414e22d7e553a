From 3d0a90aa0e46f9270dcc869f91e9af51738947bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 01/97] fix: accept floats with an uppercase exponent after a
 zero integer part

---
 crates/tombi-ast/src/support/literal/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-ast/src/support/literal/float.rs b/crates/tombi-ast/src/support/literal/float.rs
index 744c7a8..e6d29ad 100644
--- a/crates/tombi-ast/src/support/literal/float.rs
+++ b/crates/tombi-ast/src/support/literal/float.rs
@@ -27,7 +27,7 @@ pub fn try_from_float(value: &str) -> Result<f64, self::ParseError> {
     let int_slice = if value.contains('.') {
         value.split('.').next().unwrap()
     } else {
-        value.split('e').next().unwrap()
+        value.split(['e', 'E']).next().unwrap()
     };
 
     let int_number = if int_slice.starts_with("+") || int_slice.starts_with("-") {
-- 
2.43.0


From 7d7a58737bd1df5a67d85819d88ed7fa67a1b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 02/97] fix: an escaped backslash does not escape the quotes
 that close a multi-line basic string

---
 crates/tombi-lexer/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index 2ca97d7..0d9a697 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -400,10 +400,10 @@ impl Cursor<'_> {
 
         self.eat_n(2);
 
-        let mut was_quote = false;
+        let mut was_backslash = false;
         while let Some(c) = self.bump() {
             match c {
-                _ if !was_quote
+                _ if !was_backslash
                     && self.current() == '"'
                     && self.peek(1) == '"'
                     && self.peek(2) == '"' =>
@@ -422,10 +422,10 @@ impl Cursor<'_> {
                     ));
                 }
                 '\\' => {
-                    was_quote = true;
+                    was_backslash = !was_backslash;
                 }
                 _ => {
-                    was_quote = false;
+                    was_backslash = false;
                 }
             }
         }
-- 
2.43.0


From 67d9f8b8ec03cb186c407a3d8a0a3b52d51aa18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 03/97] fix: reject unicode escapes whose digits are not all
 hexadecimal

---
 crates/tombi-toml-text/src/lib.rs | 72 ++++++++-----------------------
 1 file changed, 19 insertions(+), 53 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 4db65c4..dcc5076 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -101,7 +101,6 @@ pub fn parse_basic_string(
 ) -> Result<String, ParseError> {
     let mut output = String::with_capacity(input.len());
     let mut chars = input.chars().peekable();
-    let mut unicode_buf = String::new();
     while let Some(c) = chars.next() {
         match c {
             '\\' => {
@@ -144,43 +143,11 @@ pub fn parse_basic_string(
                         }
                         'u' => {
                             chars.next(); // consume 'u'
-                            unicode_buf.clear();
-                            for _ in 0..4 {
-                                if let Some(hex_digit) = chars.next() {
-                                    unicode_buf.push(hex_digit);
-                                } else {
-                                    return Err(ParseError::InvalidUnicodeEscapeSequence);
-                                }
-                            }
-                            if let Ok(code_point) = u32::from_str_radix(&unicode_buf, 16) {
-                                if let Some(unicode_char) = std::char::from_u32(code_point) {
-                                    output.push(unicode_char);
-                                } else {
-                                    return Err(ParseError::InvalidUnicodeCodePoint);
-                                }
-                            } else {
-                                return Err(ParseError::InvalidUnicodeEscapeSequence);
-                            }
+                            output.push(take_unicode_escape(&mut chars, 4)?);
                         }
                         'U' => {
                             chars.next(); // consume 'U'
-                            unicode_buf.clear();
-                            for _ in 0..8 {
-                                if let Some(hex_digit) = chars.next() {
-                                    unicode_buf.push(hex_digit);
-                                } else {
-                                    return Err(ParseError::InvalidUnicodeEscapeSequence);
-                                }
-                            }
-                            if let Ok(code_point) = u32::from_str_radix(&unicode_buf, 16) {
-                                if let Some(unicode_char) = std::char::from_u32(code_point) {
-                                    output.push(unicode_char);
-                                } else {
-                                    return Err(ParseError::InvalidUnicodeCodePoint);
-                                }
-                            } else {
-                                return Err(ParseError::InvalidUnicodeEscapeSequence);
-                            }
+                            output.push(take_unicode_escape(&mut chars, 8)?);
                         }
                         'x' => {
                             if toml_version == TomlVersion::V1_0_0 {
@@ -189,24 +156,7 @@ pub fn parse_basic_string(
 
                             chars.next(); // consume 'x'
 
-                            unicode_buf.clear();
-                            for _ in 0..2 {
-                                if let Some(hex_digit) = chars.next() {
-                                    unicode_buf.push(hex_digit);
-                                } else {
-                                    return Err(ParseError::InvalidUnicodeEscapeSequence);
-                                }
-                            }
-
-                            if let Ok(code_point) = u32::from_str_radix(&unicode_buf, 16) {
-                                if let Some(unicode_char) = std::char::from_u32(code_point) {
-                                    output.push(unicode_char);
-                                } else {
-                                    return Err(ParseError::InvalidUnicodeCodePoint);
-                                }
-                            } else {
-                                return Err(ParseError::InvalidUnicodeEscapeSequence);
-                            }
+                            output.push(take_unicode_escape(&mut chars, 2)?);
                         }
                         c if c.is_whitespace() => {
                             // Skip newline characters
@@ -254,6 +204,22 @@ pub fn parse_basic_string(
     Ok(output)
 }
 
+/// Reads the hexadecimal digits of a `\xHH`, `\uHHHH` or `\UHHHHHHHH` escape sequence.
+fn take_unicode_escape(
+    chars: &mut impl Iterator<Item = char>,
+    digits: usize,
+) -> Result<char, ParseError> {
+    let mut code_point = 0;
+    for _ in 0..digits {
+        let digit = chars
+            .next()
+            .and_then(|c| c.to_digit(16))
+            .ok_or(ParseError::InvalidUnicodeEscapeSequence)?;
+        code_point = code_point * 16 + digit;
+    }
+    std::char::from_u32(code_point).ok_or(ParseError::InvalidUnicodeCodePoint)
+}
+
 pub fn parse_literal_string(input: &str, is_multi_line: bool) -> Result<String, ParseError> {
     let mut output = String::with_capacity(input.len());
     let mut chars = input.chars().peekable();
-- 
2.43.0


From c63239f31776d7ea2b47fb43c263a24bbd40651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 04/97] fix: trim exactly one newline after the opening
 delimiter of a multi-line string

---
 crates/tombi-toml-text/src/lib.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index dcc5076..507c8ac 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -75,23 +75,22 @@ pub fn try_from_multi_line_basic_string(
     toml_version: TomlVersion,
 ) -> Result<String, ParseError> {
     parse_basic_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
+        trim_first_newline(&value[3..value.len() - 3]),
         toml_version,
         true,
     )
 }
 
 pub fn try_from_multi_line_literal_string(value: &str) -> Result<String, ParseError> {
-    parse_literal_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
-        true,
-    )
+    parse_literal_string(trim_first_newline(&value[3..value.len() - 3]), true)
+}
+
+/// A newline immediately following the opening delimiter is trimmed.
+fn trim_first_newline(value: &str) -> &str {
+    value
+        .strip_prefix("\r\n")
+        .or_else(|| value.strip_prefix('\n'))
+        .unwrap_or(value)
 }
 
 pub fn parse_basic_string(
-- 
2.43.0


From 654e5fc0c7a86b5c86acc36348897136f5768480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 05/97] fix: only TOML whitespace and line endings continue a
 line in a multi-line basic string

---
 crates/tombi-toml-text/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 507c8ac..1e60e8c 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -157,20 +157,26 @@ pub fn parse_basic_string(
 
                             output.push(take_unicode_escape(&mut chars, 2)?);
                         }
-                        c if c.is_whitespace() => {
-                            // Skip newline characters
-                            let mut has_whitespace = c == '\n';
+                        ' ' | '\t' | '\r' | '\n' => {
+                            // Skip the line ending and the following whitespace
+                            let mut has_line_break = false;
 
-                            chars.next();
                             while let Some(&c) = chars.peek() {
-                                if c.is_whitespace() {
-                                    has_whitespace = has_whitespace || c == '\n';
-                                    chars.next();
-                                } else {
-                                    break;
+                                match c {
+                                    ' ' | '\t' => {}
+                                    '\n' => has_line_break = true,
+                                    '\r' => {
+                                        chars.next();
+                                        if chars.peek() != Some(&'\n') {
+                                            return Err(ParseError::InvalidLineBreak);
+                                        }
+                                        has_line_break = true;
+                                    }
+                                    _ => break,
                                 }
+                                chars.next();
                             }
-                            if !has_whitespace {
+                            if !has_line_break {
                                 return Err(ParseError::InvalidWhitespaceEscapeSequence);
                             }
                         }
-- 
2.43.0


From 9d911cd67207968b3565dd70dfbcf546dcc09fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 06/97] fix: reject control characters in comments between
 groups of key-values and values

---
 crates/tombi-document-tree/src/root.rs        | 3 +++
 crates/tombi-document-tree/src/value/array.rs | 3 +++
 crates/tombi-document-tree/src/value/table.rs | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/crates/tombi-document-tree/src/root.rs b/crates/tombi-document-tree/src/root.rs
index 4307cca..0e7f5e5 100644
--- a/crates/tombi-document-tree/src/root.rs
+++ b/crates/tombi-document-tree/src/root.rs
@@ -80,6 +80,9 @@ impl IntoDocumentTreeAndErrors<crate::DocumentTree> for tombi_ast::Root {
                     }
                     tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                         for comment in comment_group.comments() {
+                            if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                                errors.push(error);
+                            }
                             if let Some(comment_directive) = comment.get_tombi_value_directive() {
                                 group_boundary_comment_directives.push(comment_directive);
                             }
diff --git a/crates/tombi-document-tree/src/value/array.rs b/crates/tombi-document-tree/src/value/array.rs
index 69eede8..58976af 100644
--- a/crates/tombi-document-tree/src/value/array.rs
+++ b/crates/tombi-document-tree/src/value/array.rs
@@ -336,6 +336,9 @@ impl IntoDocumentTreeAndErrors<crate::Value> for tombi_ast::Array {
                 }
                 tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                     for comment in comment_group.comments() {
+                        if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                            errors.push(error);
+                        }
                         if let Some(comment_directive) = comment.get_tombi_value_directive() {
                             group_boundary_comment_directives.push(comment_directive);
                         }
diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index b4ef04e..935c66b 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -584,6 +584,9 @@ impl IntoDocumentTreeAndErrors<crate::Table> for tombi_ast::Table {
                     }
                     tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                         for comment in comment_group.comments() {
+                            if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                                errors.push(error);
+                            }
                             if let Some(comment_directive) = comment.get_tombi_value_directive() {
                                 group_boundary_comment_directives.push(comment_directive);
                             }
@@ -713,6 +716,9 @@ impl IntoDocumentTreeAndErrors<Table> for tombi_ast::ArrayOfTable {
                     }
                     tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                         for comment in comment_group.comments() {
+                            if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                                errors.push(error);
+                            }
                             if let Some(comment_directive) = comment.get_tombi_value_directive() {
                                 group_boundary_comment_directives.push(comment_directive);
                             }
@@ -964,6 +970,9 @@ impl IntoDocumentTreeAndErrors<crate::Value> for tombi_ast::InlineTable {
             match group {
                 tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                     for comment in comment_group.comments() {
+                        if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                            errors.push(error);
+                        }
                         if let Some(comment_directive) = comment.get_tombi_value_directive() {
                             group_boundary_comment_directives.push(comment_directive);
                         }
-- 
2.43.0


From 9235cf3119945aa57b6bff476fd39c52ed5f11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 07/97] fix: find the parent array of tables of a header behind
 other tables

---
 crates/tombi-ast/src/impls/array_of_table.rs  | 15 ---------------
 crates/tombi-ast/src/impls/table.rs           | 16 ----------------
 crates/tombi-ast/src/lib.rs                   |  2 +-
 crates/tombi-document-tree/src/value/table.rs |  2 +-
 4 files changed, 2 insertions(+), 33 deletions(-)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index 4bf379f..4bbefa9 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -153,21 +153,6 @@ impl crate::ArrayOfTable {
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
-                match (
-                    self.header().and_then(|header| header.keys().next()),
-                    keys.clone().next(),
-                ) {
-                    (Some(a), Some(b)) => match (
-                        a.try_to_raw_text(TomlVersion::latest()),
-                        b.try_to_raw_text(TomlVersion::latest()),
-                    ) {
-                        (Ok(a), Ok(b)) => a == b,
-                        _ => false,
-                    },
-                    _ => false,
-                }
-            })
             .filter(|keys| {
                 self.header()
                     .map(|header_keys| header_keys.keys().starts_with(keys))
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index 18eb2c5..c5252eb 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -150,25 +150,9 @@ impl crate::Table {
     #[inline]
     pub fn parent_array_of_tables_keys(
         &self,
-        toml_version: TomlVersion,
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
-                match (
-                    self.header().and_then(|header| header.keys().next()),
-                    keys.clone().next(),
-                ) {
-                    (Some(a), Some(b)) => match (
-                        a.try_to_raw_text(toml_version),
-                        b.try_to_raw_text(toml_version),
-                    ) {
-                        (Ok(a), Ok(b)) => a == b,
-                        _ => false,
-                    },
-                    _ => false,
-                }
-            })
             .filter(|keys| {
                 self.header()
                     .map(|header_keys| header_keys.keys().starts_with(keys))
diff --git a/crates/tombi-ast/src/lib.rs b/crates/tombi-ast/src/lib.rs
index 912b8dd..86d247f 100644
--- a/crates/tombi-ast/src/lib.rs
+++ b/crates/tombi-ast/src/lib.rs
@@ -101,7 +101,7 @@ pub trait GetHeaderAccessors {
 impl GetHeaderAccessors for crate::Table {
     fn get_header_accessors(&self, toml_version: TomlVersion) -> Option<Vec<Accessor>> {
         let array_of_tables_keys = self
-            .parent_array_of_tables_keys(toml_version)
+            .parent_array_of_tables_keys()
             .map(|keys| {
                 keys.into_iter()
                     .map(|key| key.to_raw_text(toml_version))
diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index 935c66b..273a8b9 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -600,7 +600,7 @@ impl IntoDocumentTreeAndErrors<crate::Table> for tombi_ast::Table {
         }
 
         let array_of_table_keys = get_array_of_tables_keys(
-            self.parent_array_of_tables_keys(toml_version),
+            self.parent_array_of_tables_keys(),
             toml_version,
             &mut errors,
         );
-- 
2.43.0


From a5a55056c160f5866bd0370c4559e3325a54cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 08/97] fix: dotted keys and inline tables cannot extend a
 table defined by a header

---
 crates/tombi-document-tree/src/value/table.rs | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index 273a8b9..b15ba59 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -267,10 +267,10 @@ impl Table {
             }
             (Table | InlineTable { .. } | KeyValue, Table | InlineTable { .. })
             | (InlineTable { .. }, ParentTable | ParentKey | KeyValue)
-            | (ParentTable, ParentKey) => {
+            | (ParentTable, InlineTable { .. } | ParentKey | KeyValue) => {
                 is_conflict = true;
             }
-            (ParentTable, Table | InlineTable { .. }) => {
+            (ParentTable, Table) => {
                 self.kind = other.kind;
             }
             (ParentKey, Table | InlineTable { .. }) => {
@@ -298,7 +298,7 @@ impl Table {
                     let value1 = entry.get_mut();
                     match (value1, value2) {
                         (Value::Table(table1), Value::Table(table2)) => {
-                            if let Err(errs) = table1.merge(table2) {
+                            if let Err(errs) = table1.merge_child(table2) {
                                 errors.extend(errs);
                             };
                         }
@@ -331,6 +331,22 @@ impl Table {
         }
     }
 
+    /// Merges a table that another table has under the same key.
+    ///
+    /// Unlike the body of a table, dotted keys cannot extend a table defined by a header.
+    fn merge_child(&mut self, other: Self) -> Result<(), Vec<crate::Error>> {
+        use TableKind::*;
+
+        if matches!((self.kind, other.kind), (Table, ParentKey | KeyValue)) {
+            return Err(vec![crate::Error::ConflictTable {
+                range1: self.symbol_range,
+                range2: other.symbol_range,
+            }]);
+        }
+
+        self.merge(other)
+    }
+
     pub(crate) fn insert(mut self, key: Key, value: Value) -> Result<Self, Vec<crate::Error>> {
         let mut errors = Vec::new();
 
-- 
2.43.0


From 1fc135e3d443993994f8e36dcb1c58f4d7f760ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 09/97] fix: arrays of tables of a previous element are not
 parents of a header

---
 crates/tombi-ast/src/impls/array_of_table.rs | 8 ++++++++
 crates/tombi-ast/src/impls/table.rs          | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index 4bbefa9..88ffd2d 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -158,5 +158,13 @@ impl crate::ArrayOfTable {
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            // Once an element of a parent array starts, the arrays of its previous elements are out of scope.
+            .scan(usize::MAX, |scope, keys| {
+                let depth = keys.clone().count();
+                let in_scope = depth <= *scope;
+                *scope = depth.min(*scope);
+                Some(in_scope.then_some(keys))
+            })
+            .flatten()
     }
 }
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index c5252eb..27ac0c8 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -158,5 +158,13 @@ impl crate::Table {
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            // Once an element of a parent array starts, the arrays of its previous elements are out of scope.
+            .scan(usize::MAX, |scope, keys| {
+                let depth = keys.clone().count();
+                let in_scope = depth <= *scope;
+                *scope = depth.min(*scope);
+                Some(in_scope.then_some(keys))
+            })
+            .flatten()
     }
 }
-- 
2.43.0


From 7e772ee796bf215d9780a60cc1522ba460eba90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 10/97] fix: count columns of tokens in grapheme clusters like
 the syntax tree

---
 crates/tombi-lexer/src/cursor.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/tombi-lexer/src/cursor.rs b/crates/tombi-lexer/src/cursor.rs
index c1d4463..129b840 100644
--- a/crates/tombi-lexer/src/cursor.rs
+++ b/crates/tombi-lexer/src/cursor.rs
@@ -1,11 +1,11 @@
 use tombi_text::LineEnding;
 
 pub struct Cursor<'a> {
+    source: &'a str,
     /// Iterator over chars. Slightly faster than a &str.
     chars: std::str::Chars<'a>,
     current_char: char,
     current_offset: tombi_text::Offset,
-    current_position: tombi_text::Position,
     token_start_offset: tombi_text::Offset,
     token_start_position: tombi_text::Position,
     pub(crate) line_ending: LineEnding,
@@ -19,10 +19,10 @@ impl<'a> Cursor<'a> {
         let current = chars.clone().next().unwrap_or(EOF_CHAR);
 
         Cursor {
+            source: input,
             chars,
             current_char: current,
             current_offset: Default::default(),
-            current_position: Default::default(),
             token_start_offset: Default::default(),
             token_start_position: Default::default(),
             line_ending: LineEnding::default(),
@@ -123,7 +123,6 @@ impl<'a> Cursor<'a> {
     pub(crate) fn bump(&mut self) -> Option<char> {
         if let Some(c) = self.chars.next() {
             self.current_offset += tombi_text::Offset::new(c.len_utf8() as u32);
-            self.current_position += tombi_text::RelativePosition::from(c);
             self.current_char = c;
             Some(c)
         } else {
@@ -155,14 +154,13 @@ impl<'a> Cursor<'a> {
         let start_offset = self.token_start_offset;
         let end_offset = self.current_offset;
         let start_position = self.token_start_position;
-        let end_position = self.current_position;
+        let span = tombi_text::Span::new(start_offset, end_offset);
+        // Columns count grapheme clusters, as they do in the syntax tree.
+        let end_position = start_position + tombi_text::RelativePosition::of(&self.source[span]);
 
-        self.token_start_offset = self.current_offset;
-        self.token_start_position = self.current_position;
+        self.token_start_offset = end_offset;
+        self.token_start_position = end_position;
 
-        (
-            tombi_text::Span::new(start_offset, end_offset),
-            tombi_text::Range::new(start_position, end_position),
-        )
+        (span, tombi_text::Range::new(start_position, end_position))
     }
 }
-- 
2.43.0


From 0bff1c8649c0315ad94c19d2680b272f1475858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 11/97] fix: keep the whitespace before a dotted key that looks
 like a float

---
 crates/tombi-parser/src/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-parser/src/parser.rs b/crates/tombi-parser/src/parser.rs
index efc61d4..7fdf5c9 100644
--- a/crates/tombi-parser/src/parser.rs
+++ b/crates/tombi-parser/src/parser.rs
@@ -212,7 +212,8 @@ impl<'t> Parser<'t> {
 
     pub(crate) fn bump_float_key(&mut self) {
         debug_assert!(self.nth(0) == FLOAT);
-        let token = self.nth_token(0);
+        let token_index = self.nth_index(0);
+        let token = self.input_tokens[token_index];
         let text = &self.source[token.span()];
 
         if !text.contains('.') {
@@ -225,6 +226,11 @@ impl<'t> Parser<'t> {
         let parts: Vec<&str> = text.split('.').collect();
         debug_assert!(parts.len() == 2);
 
+        // Keep the whitespace before the key.
+        self.tokens
+            .extend(&self.input_tokens[self.pos..token_index]);
+        self.pos = token_index + 1;
+
         let key1 = {
             let m = self.start();
 
@@ -305,7 +311,6 @@ impl<'t> Parser<'t> {
 
             m.complete(self, token.kind())
         }
-        self.pos += 1;
     }
 
     fn do_bump(&mut self, kind: SyntaxKind, n_raw_tokens: u8) {
-- 
2.43.0


From 80dc2870b86085bb6a19056ad0eaaaae2972a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 12/97] fix: accept bare keys that start like a date

---
 crates/tombi-lexer/src/cursor.rs |  6 ++++++
 crates/tombi-lexer/src/lib.rs    | 16 ++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/crates/tombi-lexer/src/cursor.rs b/crates/tombi-lexer/src/cursor.rs
index 129b840..1c5bb9f 100644
--- a/crates/tombi-lexer/src/cursor.rs
+++ b/crates/tombi-lexer/src/cursor.rs
@@ -149,6 +149,12 @@ impl<'a> Cursor<'a> {
         }
     }
 
+    /// The text of the token read so far.
+    #[inline]
+    pub(crate) fn token_text(&self) -> &'a str {
+        &self.source[tombi_text::Span::new(self.token_start_offset, self.current_offset)]
+    }
+
     #[inline]
     pub(crate) fn pop_span_range(&mut self) -> (tombi_text::Span, tombi_text::Range) {
         let start_offset = self.token_start_offset;
diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index 0d9a697..e2ffaf5 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -274,6 +274,10 @@ impl Cursor<'_> {
         }
 
         self.eat_while(|c| !is_token_separator_with_dot(c));
+        if is_ascii_bare_key(self.token_text()) && self.is_followed_by_key_end() {
+            return Ok(Token::new(SyntaxKind::BARE_KEY, self.pop_span_range()));
+        }
+
         if pass_local_date_time {
             Err(crate::Error::new(
                 InvalidOffsetDateTime,
@@ -289,6 +293,12 @@ impl Cursor<'_> {
         }
     }
 
+    /// Whether the next character is the one that follows a key.
+    fn is_followed_by_key_end(&self) -> bool {
+        let whitespace = self.peek_while(is_whitespace);
+        matches!(self.peek(whitespace.len() + 1), '=' | '.' | ']')
+    }
+
     fn is_time(&self) -> bool {
         debug_assert!(self.current().is_ascii_digit());
         debug_assert!("00:00".len() == 5);
@@ -553,6 +563,12 @@ fn is_line_break(c: char) -> bool {
     matches!(c, '\r' | '\n')
 }
 
+#[inline]
+fn is_ascii_bare_key(text: &str) -> bool {
+    text.chars()
+        .all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-'))
+}
+
 #[inline]
 fn is_token_separator(c: char) -> bool {
     matches!(
-- 
2.43.0


From dfdb46e0ae5c1d6f3a055b76bbfe9ea12d736c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 13/97] fix: fractional seconds need seconds

---
 crates/tombi-lexer/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index e2ffaf5..8c538f5 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -28,10 +28,10 @@ regex!(
     static REGEX_FLOAT = r"^[0-9_]+(:?(:?\.[0-9_]+)?[eE][+-]?[0-9_]+|\.[0-9_]+)$";
     static REGEX_IS_DATE_TIME = r"^[0-9]{4}-[0-9]{2}-[0-9]{2}";
     static REGEX_OFFSET_DATE_TIME =
-        r"^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}(?::[0-9]{2})?(?:[\.,][0-9]+)?(?:[Zz]|[+-][0-9]{2}:[0-9]{2})$";
-    static REGEX_LOCAL_DATE_TIME = r"^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}(?::[0-9]{2})?(?:[\.,][0-9]+)?$";
+        r"^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}(?::[0-9]{2}(?:[\.,][0-9]+)?)?(?:[Zz]|[+-][0-9]{2}:[0-9]{2})$";
+    static REGEX_LOCAL_DATE_TIME = r"^[0-9]{4}-[0-9]{2}-[0-9]{2}[Tt ][0-9]{2}:[0-9]{2}(?::[0-9]{2}(?:[\.,][0-9]+)?)?$";
     static REGEX_LOCAL_DATE = r"^[0-9]{4}-[0-9]{2}-[0-9]{2}$";
-    static REGEX_LOCAL_TIME = r"^[0-9]{2}:[0-9]{2}(?::[0-9]{2})?(?:[\.,][0-9]+)?$";
+    static REGEX_LOCAL_TIME = r"^[0-9]{2}:[0-9]{2}(?::[0-9]{2}(?:[\.,][0-9]+)?)?$";
 );
 
 pub fn lex(source: &str) -> Lexed {
-- 
2.43.0


From 8c0c116efedcbb1058ae32e38db51aba9f5397f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 14/97] fix: accept a comma after comments followed by a blank
 line

---
 .../src/parse/key_value_with_comma_group.rs         |  6 +++---
 .../src/parse/value_with_comma_group.rs             |  6 +++---
 crates/tombi-parser/src/support/comment.rs          | 13 +++++++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
index d15936d..3797569 100644
--- a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
@@ -1,9 +1,9 @@
-use tombi_syntax::{SyntaxKind::*, T};
+use tombi_syntax::SyntaxKind::*;
 
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{is_comma_ahead, peek_leading_comments},
     token_set::{TS_INLINE_TABLE_END, TS_KEY_FIRST},
 };
 
@@ -19,7 +19,7 @@ impl Parse for tombi_ast::KeyValueWithCommaGroup {
             tombi_ast::KeyValue::parse(p);
 
             let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            if is_comma_ahead(p) {
                 tombi_ast::Comma::parse(p);
             } else if p.nth_at_ts(n, TS_INLINE_TABLE_END) {
                 break;
diff --git a/crates/tombi-parser/src/parse/value_with_comma_group.rs b/crates/tombi-parser/src/parse/value_with_comma_group.rs
index 5b0bb33..8f4a4b1 100644
--- a/crates/tombi-parser/src/parse/value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/value_with_comma_group.rs
@@ -1,9 +1,9 @@
-use tombi_syntax::{SyntaxKind::*, T};
+use tombi_syntax::SyntaxKind::*;
 
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{is_comma_ahead, peek_leading_comments},
     token_set::{TS_ARRAY_END, TS_VALUE_FIRST},
 };
 
@@ -19,7 +19,7 @@ impl Parse for tombi_ast::ValueWithCommaGroup {
             tombi_ast::Value::parse(p);
 
             let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            if is_comma_ahead(p) {
                 tombi_ast::Comma::parse(p);
             } else if p.nth_at_ts(n, TS_ARRAY_END) {
                 break;
diff --git a/crates/tombi-parser/src/support/comment.rs b/crates/tombi-parser/src/support/comment.rs
index 963176d..e7bf6b2 100644
--- a/crates/tombi-parser/src/support/comment.rs
+++ b/crates/tombi-parser/src/support/comment.rs
@@ -1,3 +1,5 @@
+use tombi_syntax::T;
+
 use crate::{SyntaxKind::*, token_set::TS_LEADING_COMMENTS_KINDS};
 
 pub fn peek_leading_comments(p: &mut crate::parser::Parser<'_>) -> usize {
@@ -16,6 +18,17 @@ pub fn peek_leading_comments(p: &mut crate::parser::Parser<'_>) -> usize {
     }
 }
 
+/// Whether the next token after line breaks and comments is a comma.
+///
+/// Unlike the leading comments of a value, a blank line between the comments and the comma is allowed.
+pub fn is_comma_ahead(p: &crate::parser::Parser<'_>) -> bool {
+    let mut n = 0;
+    while p.nth_at_ts(n, TS_LEADING_COMMENTS_KINDS) {
+        n += 1;
+    }
+    p.nth_at(n, T![,])
+}
+
 #[inline]
 pub fn leading_comments(p: &mut crate::parser::Parser<'_>) {
     while p.eat_ts(TS_LEADING_COMMENTS_KINDS) {}
-- 
2.43.0


From b49a5d25069759f28c7633319d6107aaa0eba917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 15/97] fix: formatting nested arrays and inline tables does
 not take exponential time

---
 .../tombi-formatter/src/format/value/array.rs | 19 +++++------
 .../src/format/value/inline_table.rs          | 32 +++++++++----------
 crates/tombi-formatter/src/formatter.rs       | 16 +++++++---
 3 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/crates/tombi-formatter/src/format/value/array.rs b/crates/tombi-formatter/src/format/value/array.rs
index 3eb2b30..e1da6e8 100644
--- a/crates/tombi-formatter/src/format/value/array.rs
+++ b/crates/tombi-formatter/src/format/value/array.rs
@@ -41,19 +41,16 @@ pub(crate) fn exceeds_line_width(
         };
 
         for value in item_group.values() {
-            // Check if nested value should be multiline
-            let should_be_multiline = match &value {
-                tombi_ast::Value::Array(array) => {
-                    array.should_be_multiline(f.toml_version()) || exceeds_line_width(array, f)?
-                }
+            // Whether a nested value should be multiline is a part of `should_be_multiline`.
+            let exceeds_line_width = match &value {
+                tombi_ast::Value::Array(array) => exceeds_line_width(array, f)?,
                 tombi_ast::Value::InlineTable(table) => {
-                    table.should_be_multiline(f.toml_version())
-                        || crate::format::value::inline_table::exceeds_line_width(table, f)?
+                    crate::format::value::inline_table::exceeds_line_width(table, f)?
                 }
                 _ => false,
             };
 
-            if should_be_multiline {
+            if exceeds_line_width {
                 return Ok(true);
             }
 
@@ -61,7 +58,11 @@ pub(crate) fn exceeds_line_width(
                 length += 1; // ","
                 length += f.array_comma_space().len();
             }
-            length += f.format_to_string(&value)?.graphemes(true).count();
+            // None of the nested values is multiline here.
+            length += f
+                .format_to_single_line_string(&value)?
+                .graphemes(true)
+                .count();
             first = false;
         }
     }
diff --git a/crates/tombi-formatter/src/format/value/inline_table.rs b/crates/tombi-formatter/src/format/value/inline_table.rs
index 053390f..b980506 100644
--- a/crates/tombi-formatter/src/format/value/inline_table.rs
+++ b/crates/tombi-formatter/src/format/value/inline_table.rs
@@ -45,30 +45,28 @@ pub(crate) fn exceeds_line_width(
             continue;
         };
         for key_value in item_group.key_values() {
-            // Check if nested value should be multiline
-            if let Some(value) = key_value.value() {
-                let should_be_multiline = match value {
-                    tombi_ast::Value::Array(array) => {
-                        array.should_be_multiline(f.toml_version())
-                            || crate::format::value::array::exceeds_line_width(&array, f)?
-                    }
-                    tombi_ast::Value::InlineTable(table) => {
-                        table.should_be_multiline(f.toml_version())
-                            || exceeds_line_width(&table, f)?
-                    }
-                    _ => false,
-                };
-
-                if should_be_multiline {
-                    return Ok(true);
+            // Whether a nested value should be multiline is a part of `should_be_multiline`.
+            let exceeds_line_width = match key_value.value() {
+                Some(tombi_ast::Value::Array(array)) => {
+                    crate::format::value::array::exceeds_line_width(&array, f)?
                 }
+                Some(tombi_ast::Value::InlineTable(table)) => exceeds_line_width(&table, f)?,
+                _ => false,
+            };
+
+            if exceeds_line_width {
+                return Ok(true);
             }
 
             if !first {
                 length += 1; // ","
                 length += f.inline_table_comma_space().len();
             }
-            length += f.format_to_string(&key_value)?.graphemes(true).count();
+            // None of the nested values is multiline here.
+            length += f
+                .format_to_single_line_string(&key_value)?
+                .graphemes(true)
+                .count();
             first = false;
         }
     }
diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 21b03cc..fcd4d73 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -206,10 +206,18 @@ impl<'a> Formatter<'a> {
         let Ok(root) = tombi_parser::parse(content).try_into_root() else {
             return Ok(content.trim().to_string());
         };
-        self.single_line_mode = true;
-        let formatted = self.format_to_string(&root)?;
-        self.single_line_mode = false;
-        Ok(formatted)
+        self.format_to_single_line_string(&root)
+    }
+
+    /// Format a node without breaking its arrays and inline tables over lines.
+    pub(crate) fn format_to_single_line_string<T: Format>(
+        &mut self,
+        node: &T,
+    ) -> Result<String, std::fmt::Error> {
+        let old_single_line_mode = std::mem::replace(&mut self.single_line_mode, true);
+        let result = self.format_to_string(node);
+        self.single_line_mode = old_single_line_mode;
+        result
     }
 
     #[inline]
-- 
2.43.0


From 46a8d518382b667ef73a6372ab18fa58544b7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 16/97] fix: count columns of schema directives in grapheme
 clusters from the start of the comment

---
 crates/tombi-ast/src/impls/comment.rs      | 22 ++++++++++++----------
 crates/tombi-lsp/src/completion/comment.rs |  3 +--
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/tombi-ast/src/impls/comment.rs b/crates/tombi-ast/src/impls/comment.rs
index 240f354..b4236d1 100644
--- a/crates/tombi-ast/src/impls/comment.rs
+++ b/crates/tombi-ast/src/impls/comment.rs
@@ -20,20 +20,21 @@ impl Comment {
             let space_count = (original_len - uri_text.len()) as u32;
             uri_text = uri_text.trim();
 
-            let comment_range = self.syntax().range();
+            let comment_start = self.syntax().range().start;
             let directive_range = tombi_text::Range::new(
-                tombi_text::Position::new(comment_range.start.line, 1),
+                tombi_text::Position::new(comment_start.line, comment_start.column + 1),
                 tombi_text::Position::new(
-                    comment_range.end.line,
-                    8, // "#:schema" length
+                    comment_start.line,
+                    comment_start.column + 8, // "#:schema" length
                 ),
             );
+            let uri_start = tombi_text::Position::new(
+                comment_start.line,
+                comment_start.column + 9 + space_count,
+            );
             let uri_range = tombi_text::Range::new(
-                tombi_text::Position::new(comment_range.start.line, 9 + space_count),
-                tombi_text::Position::new(
-                    comment_range.end.line,
-                    9 + space_count + uri_text.len() as tombi_text::Column,
-                ),
+                uri_start,
+                uri_start + tombi_text::RelativePosition::of(uri_text),
             );
 
             if let Some(source_path) = source_path
@@ -124,7 +125,8 @@ impl Comment {
         if !content_with_directive.starts_with("tombi:") {
             return None;
         }
-        let prefix_len = (comment_text.len() - content_with_directive.len()) as u32;
+        let prefix = &comment_text[..comment_text.len() - content_with_directive.len()];
+        let prefix_len = tombi_text::RelativePosition::of(prefix).column;
         let directive_range = tombi_text::Range::new(
             tombi_text::Position::new(
                 comment_range.start.line,
diff --git a/crates/tombi-lsp/src/completion/comment.rs b/crates/tombi-lsp/src/completion/comment.rs
index 29b2cd3..2b781b7 100644
--- a/crates/tombi-lsp/src/completion/comment.rs
+++ b/crates/tombi-lsp/src/completion/comment.rs
@@ -189,8 +189,7 @@ fn get_schema_text_and_range<'a>(
 ) -> Option<(&'a str, tombi_text::Range)> {
     let schema_text = match &schema_directive.uri {
         Ok(schema_uri) if matches!(schema_uri.scheme(), "file") => {
-            &comment_text[schema_directive.uri_range.start.column as usize
-                ..schema_directive.uri_range.end.column as usize]
+            comment_text.strip_prefix("#:schema ")?.trim()
         }
         Err(schema_path) => schema_path,
         Ok(_) => return None,
-- 
2.43.0


From 894ec46add5b0cbd8f42ce3b7b899e001b2e59ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 17/97] fix: dotted keys count towards the recursion limit

---
 .../tombi-parser/src/parse/array_of_table.rs   |  3 +++
 crates/tombi-parser/src/parse/key.rs           | 18 ++++++++++++++++--
 crates/tombi-parser/src/parse/key_value.rs     |  3 +++
 crates/tombi-parser/src/parse/table.rs         |  3 +++
 crates/tombi-parser/src/parse/value.rs         |  4 ++++
 crates/tombi-parser/src/parser.rs              | 17 ++++++++++++-----
 6 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/crates/tombi-parser/src/parse/array_of_table.rs b/crates/tombi-parser/src/parse/array_of_table.rs
index a821191..15c6342 100644
--- a/crates/tombi-parser/src/parse/array_of_table.rs
+++ b/crates/tombi-parser/src/parse/array_of_table.rs
@@ -12,6 +12,7 @@ use crate::{
 impl Parse for tombi_ast::ArrayOfTable {
     fn parse(p: &mut Parser<'_>) {
         let m = p.start();
+        let nested_depth = p.nested_depth();
 
         leading_comments(p);
 
@@ -48,6 +49,8 @@ impl Parse for tombi_ast::ArrayOfTable {
             }
         }
 
+        p.restore_nested_depth(nested_depth);
+
         m.complete(p, ARRAY_OF_TABLE);
     }
 }
diff --git a/crates/tombi-parser/src/parse/key.rs b/crates/tombi-parser/src/parse/key.rs
index 3040850..3925fc8 100644
--- a/crates/tombi-parser/src/parse/key.rs
+++ b/crates/tombi-parser/src/parse/key.rs
@@ -1,7 +1,11 @@
 use tombi_syntax::{SyntaxKind::*, T};
 
 use super::Parse;
-use crate::{ErrorKind::*, parser::Parser, token_set::TS_KEY_FIRST};
+use crate::{
+    ErrorKind::*,
+    parser::{MAX_RECURSION_DEPTH, Parser},
+    token_set::TS_KEY_FIRST,
+};
 
 impl Parse for tombi_ast::Keys {
     fn parse(p: &mut Parser<'_>) {
@@ -14,11 +18,20 @@ impl Parse for tombi_ast::Keys {
     }
 }
 
+/// Eat the keys of a dotted key.
+///
+/// Each of the tables they create is one nesting level of what follows, until
+/// the caller restores the nested depth.
 pub fn eat_keys(p: &mut Parser<'_>) -> bool {
     if p.nth_at(1, T![.]) {
         let mut has_error = false;
+        let mut too_deep = false;
         // Dotted keys Mode
         loop {
+            if p.nested_depth() > MAX_RECURSION_DEPTH && !too_deep {
+                too_deep = true;
+                p.error(crate::Error::new(RecursionLimitExceeded, p.current_range()));
+            }
             has_error |= !eat_key(p);
             if !p.eat(T![.]) {
                 break;
@@ -31,8 +44,9 @@ pub fn eat_keys(p: &mut Parser<'_>) -> bool {
                 ));
                 break;
             }
+            p.enter_nested();
         }
-        !has_error
+        !has_error && !too_deep
     } else {
         eat_key(p)
     }
diff --git a/crates/tombi-parser/src/parse/key_value.rs b/crates/tombi-parser/src/parse/key_value.rs
index 7fe8b4e..cde8778 100644
--- a/crates/tombi-parser/src/parse/key_value.rs
+++ b/crates/tombi-parser/src/parse/key_value.rs
@@ -10,6 +10,7 @@ use crate::{
 impl Parse for tombi_ast::KeyValue {
     fn parse(p: &mut Parser) {
         let m = p.start();
+        let nested_depth = p.nested_depth();
 
         leading_comments(p);
 
@@ -31,6 +32,8 @@ impl Parse for tombi_ast::KeyValue {
 
         trailing_comment(p);
 
+        p.restore_nested_depth(nested_depth);
+
         m.complete(p, KEY_VALUE);
     }
 }
diff --git a/crates/tombi-parser/src/parse/table.rs b/crates/tombi-parser/src/parse/table.rs
index 253ad64..e0bb7f3 100644
--- a/crates/tombi-parser/src/parse/table.rs
+++ b/crates/tombi-parser/src/parse/table.rs
@@ -12,6 +12,7 @@ use crate::{
 impl Parse for tombi_ast::Table {
     fn parse(p: &mut Parser<'_>) {
         let m = p.start();
+        let nested_depth = p.nested_depth();
 
         leading_comments(p);
 
@@ -48,6 +49,8 @@ impl Parse for tombi_ast::Table {
             }
         }
 
+        p.restore_nested_depth(nested_depth);
+
         m.complete(p, TABLE);
     }
 }
diff --git a/crates/tombi-parser/src/parse/value.rs b/crates/tombi-parser/src/parse/value.rs
index 01a02d3..b0974d6 100644
--- a/crates/tombi-parser/src/parse/value.rs
+++ b/crates/tombi-parser/src/parse/value.rs
@@ -35,13 +35,17 @@ impl Parse for tombi_ast::Value {
                 let key_range = p.nth_range(n);
                 p.error(crate::Error::new(ExpectedValue, key_range));
                 let m = p.start();
+                let nested_depth = p.nested_depth();
                 leading_comments(p);
                 {
                     let m = p.start();
                     if eat_keys(p) {
                         m.complete(p, KEYS);
+                    } else {
+                        m.complete(p, INVALID_TOKEN);
                     }
                 }
+                p.restore_nested_depth(nested_depth);
                 trailing_comment(p);
                 m.complete(p, KEY_VALUE);
             }
diff --git a/crates/tombi-parser/src/parser.rs b/crates/tombi-parser/src/parser.rs
index 7fdf5c9..9df19a1 100644
--- a/crates/tombi-parser/src/parser.rs
+++ b/crates/tombi-parser/src/parser.rs
@@ -5,11 +5,12 @@ use tombi_syntax::{
 
 use crate::{Event, marker::Marker, token_set::TokenSet};
 
-/// Maximum nesting depth for arrays and inline tables.
+/// Maximum nesting depth for arrays, inline tables and dotted keys.
 ///
-/// Bounds recursion through `Value::parse` so a deeply nested (but finite)
-/// document cannot exhaust the thread stack and abort the process. Matches
-/// `serde_json`'s default recursion limit.
+/// Bounds recursion through `Value::parse`, and through the tables that dotted
+/// keys create, so a deeply nested (but finite) document cannot exhaust the
+/// thread stack and abort the process. Matches `serde_json`'s default
+/// recursion limit.
 pub(crate) const MAX_RECURSION_DEPTH: usize = 128;
 
 #[derive(Debug)]
@@ -34,7 +35,7 @@ impl<'t> Parser<'t> {
         }
     }
 
-    /// Current array/inline-table nesting depth.
+    /// Current array/inline-table/dotted-key nesting depth.
     #[inline]
     pub(crate) fn nested_depth(&self) -> usize {
         self.depth
@@ -52,6 +53,12 @@ impl<'t> Parser<'t> {
         self.depth -= 1;
     }
 
+    /// Leave the tables of a dotted key.
+    #[inline]
+    pub(crate) fn restore_nested_depth(&mut self, depth: usize) {
+        self.depth = depth;
+    }
+
     pub(crate) fn finish(mut self) -> (Vec<tombi_lexer::Token>, Vec<crate::Event>) {
         for i in self.pos..self.input_tokens.len() {
             self.tokens.push(self.input_tokens[i]);
-- 
2.43.0


From f36d44f40de04ea1013abd281b0bc4bded49c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 18/97] fix: keep a blank line between a comment that ends a
 section and the next header

---
 crates/tombi-formatter/src/format/root.rs | 46 +++++++++++++++++++++--
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-formatter/src/format/root.rs b/crates/tombi-formatter/src/format/root.rs
index 2f70072..08560c0 100644
--- a/crates/tombi-formatter/src/format/root.rs
+++ b/crates/tombi-formatter/src/format/root.rs
@@ -23,6 +23,7 @@ impl Format for tombi_ast::Root {
         .collect_vec();
 
         groups.format(f)?;
+        let ends_with_comment = ends_with_dangling_comment_group(groups.into_iter());
 
         let table_or_array_of_tables = self.table_or_array_of_tables().collect_vec();
 
@@ -35,7 +36,7 @@ impl Format for tombi_ast::Root {
                         .min(f.group_blank_lines_limit()),
                 )?;
             } else {
-                f.write_blank_lines(f.table_blank_lines())?;
+                f.write_blank_lines(section_blank_lines(f, ends_with_comment))?;
             }
         }
         table_or_array_of_tables.format(f)?;
@@ -56,6 +57,12 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                     let header_keys = table.header().unwrap().keys();
                     let key_value_size = table.key_values().count();
                     let has_dangling_comments = table.dangling_comment_groups().next().is_some();
+                    let ends_with_comment = ends_with_dangling_comment_group(itertools::chain!(
+                        table
+                            .dangling_comment_groups()
+                            .map(DanglingCommentGroupOr::DanglingCommentGroup),
+                        table.key_value_groups()
+                    ));
 
                     match header {
                         Header::Root => {}
@@ -63,18 +70,20 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                             header_keys: pre_header_keys,
                             key_value_size,
                             has_dangling_comments,
+                            ends_with_comment,
                         }
                         | Header::ArrayOfTable {
                             header_keys: pre_header_keys,
                             key_value_size,
                             has_dangling_comments,
+                            ends_with_comment,
                         } => {
                             if key_value_size > 0
                                 || !header_keys.starts_with(&pre_header_keys)
                                 || has_dangling_comments
                                 || table.header_leading_comments().next().is_some()
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..section_blank_lines(f, ends_with_comment) {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -86,6 +95,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                         header_keys,
                         key_value_size,
                         has_dangling_comments,
+                        ends_with_comment,
                     };
                 }
                 tombi_ast::TableOrArrayOfTable::ArrayOfTable(array_of_table) => {
@@ -93,6 +103,12 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                     let key_value_size = array_of_table.key_values().count();
                     let has_dangling_comments =
                         array_of_table.dangling_comment_groups().next().is_some();
+                    let ends_with_comment = ends_with_dangling_comment_group(itertools::chain!(
+                        array_of_table
+                            .dangling_comment_groups()
+                            .map(DanglingCommentGroupOr::DanglingCommentGroup),
+                        array_of_table.key_value_groups()
+                    ));
 
                     match header {
                         Header::Root => {}
@@ -100,13 +116,14 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                             header_keys: pre_header_keys,
                             key_value_size,
                             has_dangling_comments,
+                            ends_with_comment,
                         } => {
                             if key_value_size > 0
                                 || !header_keys.starts_with(&pre_header_keys)
                                 || has_dangling_comments
                                 || array_of_table.header_leading_comments().next().is_some()
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..section_blank_lines(f, ends_with_comment) {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -115,13 +132,14 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                             header_keys: pre_header_keys,
                             key_value_size,
                             has_dangling_comments,
+                            ends_with_comment,
                         } => {
                             if key_value_size > 0
                                 || !header_keys.starts_with(&pre_header_keys)
                                 || pre_header_keys.same_as(&header_keys)
                                 || has_dangling_comments
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..section_blank_lines(f, ends_with_comment) {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -134,6 +152,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                         header_keys,
                         key_value_size,
                         has_dangling_comments,
+                        ends_with_comment,
                     };
                 }
             }
@@ -143,6 +162,23 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
     }
 }
 
+fn ends_with_dangling_comment_group<T>(
+    groups: impl Iterator<Item = DanglingCommentGroupOr<T>>,
+) -> bool {
+    matches!(
+        groups.last(),
+        Some(DanglingCommentGroupOr::DanglingCommentGroup(_))
+    )
+}
+
+/// The number of blank lines before the next header.
+///
+/// A comment at the end of a section needs a blank line,
+/// otherwise it would become a leading comment of the next header.
+fn section_blank_lines(f: &crate::Formatter, ends_with_comment: bool) -> u8 {
+    f.table_blank_lines().max(u8::from(ends_with_comment))
+}
+
 #[derive(Debug)]
 enum Header {
     Root,
@@ -151,12 +187,14 @@ enum Header {
         header_keys: tombi_ast::AstChildren<tombi_ast::Key>,
         key_value_size: usize,
         has_dangling_comments: bool,
+        ends_with_comment: bool,
     },
 
     ArrayOfTable {
         header_keys: tombi_ast::AstChildren<tombi_ast::Key>,
         key_value_size: usize,
         has_dangling_comments: bool,
+        ends_with_comment: bool,
     },
 }
 
-- 
2.43.0


From 46e29eec6e80af24030910b53cb661ccf9f6422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 19/97] fix: align equals signs by the formatted keys

---
 crates/tombi-formatter/src/format.rs     |  2 ++
 crates/tombi-formatter/src/format/key.rs | 34 +++++++++++++-----------
 crates/tombi-formatter/src/formatter.rs  |  3 ++-
 3 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/crates/tombi-formatter/src/format.rs b/crates/tombi-formatter/src/format.rs
index c4bfcfc..fb5b9e4 100644
--- a/crates/tombi-formatter/src/format.rs
+++ b/crates/tombi-formatter/src/format.rs
@@ -16,6 +16,8 @@ use tombi_syntax::SyntaxKind::{LINE_BREAK, WHITESPACE};
 
 use crate::types::AlignmentWidth;
 
+pub(crate) use key::format_keys;
+
 pub trait Format {
     fn format(&self, f: &mut crate::Formatter) -> Result<(), std::fmt::Error>;
 }
diff --git a/crates/tombi-formatter/src/format/key.rs b/crates/tombi-formatter/src/format/key.rs
index 82cd569..332535e 100644
--- a/crates/tombi-formatter/src/format/key.rs
+++ b/crates/tombi-formatter/src/format/key.rs
@@ -2,6 +2,7 @@ use std::fmt::Write;
 
 use itertools::Itertools;
 use tombi_ast::AstNode;
+use tombi_config::StringQuoteStyle;
 
 use crate::{
     Format,
@@ -9,24 +10,27 @@ use crate::{
     types::{AlignmentWidth, WithAlignmentHint},
 };
 
+/// The text of dotted keys, without the spaces around the dots.
+pub(crate) fn format_keys(keys: &tombi_ast::Keys, quote_style: StringQuoteStyle) -> String {
+    keys.keys()
+        .map(|key| match key {
+            tombi_ast::Key::BareKey(it) => it.syntax().text().to_string(),
+            tombi_ast::Key::BasicString(it) => {
+                format_basic_string_quote_style(it.token().unwrap().text(), quote_style)
+                    .into_owned()
+            }
+            tombi_ast::Key::LiteralString(it) => {
+                format_literal_string_quote_style(it.token().unwrap().text(), quote_style)
+                    .into_owned()
+            }
+        })
+        .join(".")
+}
+
 impl Format for WithAlignmentHint<&tombi_ast::Keys> {
     fn format(&self, f: &mut crate::Formatter) -> Result<(), std::fmt::Error> {
         let keys = self.value;
-        let mut keys_string = keys
-            .keys()
-            .map(|key| match key {
-                tombi_ast::Key::BareKey(it) => it.syntax().text().to_string(),
-                tombi_ast::Key::BasicString(it) => {
-                    format_basic_string_quote_style(it.token().unwrap().text(), f.key_quote_style())
-                        .into_owned()
-                }
-                tombi_ast::Key::LiteralString(it) => format_literal_string_quote_style(
-                    it.token().unwrap().text(),
-                    f.key_quote_style(),
-                )
-                .into_owned(),
-            })
-            .join(".");
+        let mut keys_string = format_keys(keys, f.key_quote_style());
 
         if let Some(keys_alignment_width) = self.equal_alignment_width {
             keys_string.push_str(&" ".repeat(
diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index fcd4d73..9322201 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -10,6 +10,7 @@ use unicode_segmentation::UnicodeSegmentation;
 
 use crate::{
     Format,
+    format::format_keys,
     types::{AlignmentWidth, WithAlignmentHint},
 };
 
@@ -370,7 +371,7 @@ impl<'a> Formatter<'a> {
         if self.definitions.key_value_equal_alignment {
             key_values
                 .filter_map(|key_value| key_value.keys())
-                .map(|keys| AlignmentWidth::new(&keys.to_string()))
+                .map(|keys| AlignmentWidth::new(&format_keys(&keys, self.key_quote_style())))
                 .max()
         } else {
             None
-- 
2.43.0


From 2c4cfa60a01d4e177261c8f1529407d4c18ff357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 20/97] fix: do not read the values of a comment directive
 whose document tree has errors

---
 crates/tombi-validator/src/comment_directive/document.rs | 6 +++++-
 crates/tombi-validator/src/comment_directive/value.rs    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-validator/src/comment_directive/document.rs b/crates/tombi-validator/src/comment_directive/document.rs
index c23746a..ac039da 100644
--- a/crates/tombi-validator/src/comment_directive/document.rs
+++ b/crates/tombi-validator/src/comment_directive/document.rs
@@ -99,7 +99,11 @@ pub async fn get_tombi_document_comment_directive_and_diagnostics(
                         .into_iter()
                         .map(|diagnostic| into_directive_diagnostic(&diagnostic, content_range)),
                 );
-            } else if let Err(diagnostics) =
+                // The tree may hold incomplete values, which have no document.
+                continue;
+            }
+
+            if let Err(diagnostics) =
                 crate::validate(document_tree.clone(), Some(&source_schema), &schema_context).await
             {
                 total_diagnostics.extend(
diff --git a/crates/tombi-validator/src/comment_directive/value.rs b/crates/tombi-validator/src/comment_directive/value.rs
index aa08029..e28e6ed 100644
--- a/crates/tombi-validator/src/comment_directive/value.rs
+++ b/crates/tombi-validator/src/comment_directive/value.rs
@@ -463,7 +463,11 @@ pub async fn get_comment_directive_document_tree_and_diagnostics<'a>(
                     .into_iter()
                     .map(|diagnostic| into_directive_diagnostic(&diagnostic, *content_range)),
             );
-        } else if let Err(diagnostics) =
+            // The tree may hold incomplete values, which have no document.
+            continue;
+        }
+
+        if let Err(diagnostics) =
             crate::validate(document_tree.clone(), Some(&source_schema), &schema_context).await
         {
             total_diagnostics.extend(
-- 
2.43.0


From cf3c4824df5547479ff19dfccdc1a804ac916123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 21/97] fix: keep the trailing comment of the last value when
 sorting drops its comma

---
 crates/tombi-ast-editor/src/rule/array_values_order.rs      | 4 +++-
 crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 0a01378..8ca1c1e 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -128,8 +128,10 @@ pub async fn array_values_order<'a>(
         return Vec::new();
     };
 
-    if let Some((_, comma)) = sorted_values_with_comma.last_mut()
+    if let Some((value, comma)) = sorted_values_with_comma.last_mut()
         && !is_last_comma
+        // Its trailing comment has been moved behind the comma.
+        && value.trailing_comment().is_none()
         && let Some(new_last_comma) = comma
         && new_last_comma.trailing_comment().is_none()
         && new_last_comma.leading_comments().next().is_none()
diff --git a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
index 0dee382..4da2878 100644
--- a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
@@ -69,8 +69,10 @@ pub async fn inline_table_keys_order<'a>(
         return Vec::new();
     };
 
-    if let Some((_, comma)) = sorted_key_values_with_comma.last_mut()
+    if let Some((key_value, comma)) = sorted_key_values_with_comma.last_mut()
         && !is_last_comma
+        // Its trailing comment has been moved behind the comma.
+        && key_value.trailing_comment().is_none()
         && let Some(new_last_comma) = comma
         && new_last_comma.trailing_comment().is_none()
         && new_last_comma.leading_comments().next().is_none()
-- 
2.43.0


From e265d0016b6a40d52f6589af9dc1d02a0457206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 22/97] fix: the width of a deep indentation does not overflow

---
 crates/tombi-formatter/src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 9322201..0c264d9 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -396,7 +396,7 @@ impl<'a> Formatter<'a> {
     #[inline]
     fn indent(&self, depth: u8) -> String {
         match self.definitions.indent_style {
-            IndentStyle::Space => " ".repeat((self.definitions.indent_width * depth) as usize),
+            IndentStyle::Space => " ".repeat(self.definitions.indent_width as usize * depth as usize),
             IndentStyle::Tab => "\t".repeat(depth as usize),
         }
     }
-- 
2.43.0


From 40612560f01b1521218128b54e517d239b889e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 23/97] fix: reject JSON floats with leading zeros

---
 crates/tombi-json-lexer/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-json-lexer/src/lib.rs b/crates/tombi-json-lexer/src/lib.rs
index 90ba8e5..92898c7 100644
--- a/crates/tombi-json-lexer/src/lib.rs
+++ b/crates/tombi-json-lexer/src/lib.rs
@@ -20,8 +20,8 @@ macro_rules! regex {
 }
 
 regex!(
-    REGEX_INTEGER_DEC = r"^-?(:?[1-9](:?[0-9])*|0)$";
-    REGEX_FLOAT = r"^-?[0-9]+(:?(:?\.[0-9]+)?[eE][+-]?[0-9]+|\.[0-9]+)$";
+    REGEX_INTEGER_DEC = r"^-?(?:[1-9][0-9]*|0)$";
+    REGEX_FLOAT = r"^-?(?:[1-9][0-9]*|0)(?:(?:\.[0-9]+)?[eE][+-]?[0-9]+|\.[0-9]+)$";
 );
 
 pub fn lex(source: &str) -> Lexed {
-- 
2.43.0


From 204191e9e6bd36d08b54f1bf44aa25f5321860b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 24/97] fix: accept a lone carriage return as JSON whitespace

---
 crates/tombi-json-lexer/src/lib.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/tombi-json-lexer/src/lib.rs b/crates/tombi-json-lexer/src/lib.rs
index 92898c7..e05d1f3 100644
--- a/crates/tombi-json-lexer/src/lib.rs
+++ b/crates/tombi-json-lexer/src/lib.rs
@@ -144,8 +144,6 @@ impl Cursor<'_> {
         if c == '\r' {
             if self.peek(1) == '\n' {
                 self.eat_n(1);
-            } else {
-                return Err(crate::Error::new(InvalidLineBreak, self.pop_span_range()));
             }
         } else {
             while self.peek(1) == '\r' {
-- 
2.43.0


From 2c5ee4e0e034390782174711d776cc6a13ff1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 25/97] fix: count columns of JSON tokens in grapheme clusters

---
 crates/tombi-json-lexer/src/cursor.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/tombi-json-lexer/src/cursor.rs b/crates/tombi-json-lexer/src/cursor.rs
index 6e556cd..fedfa79 100644
--- a/crates/tombi-json-lexer/src/cursor.rs
+++ b/crates/tombi-json-lexer/src/cursor.rs
@@ -1,9 +1,9 @@
 pub struct Cursor<'a> {
+    source: &'a str,
     /// Iterator over chars. Slightly faster than a &str.
     chars: std::str::Chars<'a>,
     current_char: char,
     current_offset: tombi_text::Offset,
-    current_position: tombi_text::Position,
     token_start_offset: tombi_text::Offset,
     token_start_position: tombi_text::Position,
 }
@@ -16,10 +16,10 @@ impl<'a> Cursor<'a> {
         let current = chars.clone().next().unwrap_or(EOF_CHAR);
 
         Cursor {
+            source: input,
             chars,
             current_char: current,
             current_offset: Default::default(),
-            current_position: Default::default(),
             token_start_offset: Default::default(),
             token_start_position: Default::default(),
         }
@@ -76,7 +76,6 @@ impl<'a> Cursor<'a> {
     pub(crate) fn bump(&mut self) -> Option<char> {
         if let Some(c) = self.chars.next() {
             self.current_offset += tombi_text::Offset::new(c.len_utf8() as u32);
-            self.current_position += tombi_text::RelativePosition::from(c);
             self.current_char = c;
             Some(c)
         } else {
@@ -106,14 +105,13 @@ impl<'a> Cursor<'a> {
         let start_offset = self.token_start_offset;
         let end_offset = self.current_offset;
         let start_position = self.token_start_position;
-        let end_position = self.current_position;
+        let span = tombi_text::Span::new(start_offset, end_offset);
+        // Columns count grapheme clusters, as they do in the syntax tree.
+        let end_position = start_position + tombi_text::RelativePosition::of(&self.source[span]);
 
-        self.token_start_offset = self.current_offset;
-        self.token_start_position = self.current_position;
+        self.token_start_offset = end_offset;
+        self.token_start_position = end_position;
 
-        (
-            tombi_text::Span::new(start_offset, end_offset),
-            tombi_text::Range::new(start_position, end_position),
-        )
+        (span, tombi_text::Range::new(start_position, end_position))
     }
 }
-- 
2.43.0


From edd9d02b920258d2661c0e958d2e71b72d688f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 26/97] fix: read JSON numbers without losing precision or
 range

---
 crates/tombi-json-value/src/number.rs |  2 +-
 crates/tombi-json/src/parser.rs       | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/tombi-json-value/src/number.rs b/crates/tombi-json-value/src/number.rs
index 6b69f39..6edff28 100644
--- a/crates/tombi-json-value/src/number.rs
+++ b/crates/tombi-json-value/src/number.rs
@@ -25,7 +25,7 @@ impl Number {
     /// Creates a Number from a f64 value
     pub fn from_f64(value: f64) -> Self {
         // Convert whole numbers to integers if possible
-        if value.fract() == 0.0 && value >= i64::MIN as f64 && value <= i64::MAX as f64 {
+        if value.fract() == 0.0 && value >= i64::MIN as f64 && value < -(i64::MIN as f64) {
             Number::Integer(value as i64)
         } else {
             Number::Float(value)
diff --git a/crates/tombi-json/src/parser.rs b/crates/tombi-json/src/parser.rs
index 5ed9c4e..e4318a1 100644
--- a/crates/tombi-json/src/parser.rs
+++ b/crates/tombi-json/src/parser.rs
@@ -181,19 +181,19 @@ impl<'a> Parser<'a> {
                         let num_str = &self.source[span.start.into()..span.end.into()];
                         self.advance();
 
-                        // Parse as f64
+                        // Integers that fit are kept exactly
+                        if let Ok(n) = num_str.parse::<i64>() {
+                            return Ok(ValueNode::Number(NumberNode {
+                                value: Number::from_i64(n),
+                                range,
+                            }));
+                        }
+
+                        // Otherwise, parse as f64
                         match num_str.parse::<f64>() {
                             Ok(n) => {
-                                let num = if n.is_nan() || n.is_infinite() {
-                                    // Fallback for NaN or infinity
-                                    if num_str.starts_with('-') {
-                                        Number::from(-0.0)
-                                    } else {
-                                        Number::from(0.0)
-                                    }
-                                } else {
-                                    Number::from_f64(n)
-                                };
+                                // Numbers out of range become the nearest finite number
+                                let num = Number::from_f64(n.clamp(f64::MIN, f64::MAX));
 
                                 Ok(ValueNode::Number(NumberNode { value: num, range }))
                             }
-- 
2.43.0


From e12e965d51765d24dbadd88e3aa25eff43e1e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 27/97] fix: version sort compares numbers of any length by
 value

---
 crates/tombi-version-sort/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-version-sort/src/lib.rs b/crates/tombi-version-sort/src/lib.rs
index 110a299..566b852 100644
--- a/crates/tombi-version-sort/src/lib.rs
+++ b/crates/tombi-version-sort/src/lib.rs
@@ -41,7 +41,8 @@ impl<'a> VersionChunkIter<'a> {
         };
 
         let zeros = source.chars().take_while(|c| *c == '0').count();
-        let value = source.parse::<usize>().ok()?;
+        // Larger values saturate, and are told apart by their digits.
+        let value = source.parse::<usize>().unwrap_or(usize::MAX);
 
         Some(VersionChunk::Number {
             value,
@@ -219,14 +220,17 @@ pub fn version_sort(a: &str, b: &str) -> std::cmp::Ordering {
                     VersionChunk::Number {
                         value: va,
                         zeros: lza,
-                        ..
+                        source: sa,
                     },
                     VersionChunk::Number {
                         value: vb,
                         zeros: lzb,
-                        ..
+                        source: sb,
                     },
-                ) => match va.cmp(&vb) {
+                ) => match va.cmp(&vb).then_with(|| {
+                    let (da, db) = (&sa[lza..], &sb[lzb..]);
+                    da.len().cmp(&db.len()).then_with(|| da.cmp(db))
+                }) {
                     std::cmp::Ordering::Equal => {
                         if lza == lzb {
                             continue;
-- 
2.43.0


From 4c8dd6be0f1bf01c683d6273b09a138d8b4e361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 28/97] fix: only write escapes that TOML has in basic strings

---
 crates/tombi-toml-text/src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 1e60e8c..a462a05 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -259,15 +259,11 @@ pub fn to_basic_string(value: &str) -> String {
         match c {
             '"' => result.push_str("\\\""),
             '\\' => result.push_str("\\\\"),
-            '\x00' => result.push_str("\\0"),
-            '\x07' => result.push_str("\\a"),
             '\x08' => result.push_str("\\b"),
             '\x09' => result.push_str("\\t"),
             '\x0a' => result.push_str("\\n"),
-            '\x0b' => result.push_str("\\v"),
             '\x0c' => result.push_str("\\f"),
             '\x0d' => result.push_str("\\r"),
-            '\x1b' => result.push_str("\\e"),
             c if c.is_control() => {
                 result.push_str(&format!("\\u{:04x}", c as u32));
             }
-- 
2.43.0


From d395bf651cc6dc1fb35aa4533d6691151ee6a11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 29/97] fix: serialize strings, keys, floats and nested arrays
 and tables as the TOML that means them

---
 rust/serde_tombi/src/document.rs | 267 ++++++++++++-------------------
 1 file changed, 101 insertions(+), 166 deletions(-)

diff --git a/rust/serde_tombi/src/document.rs b/rust/serde_tombi/src/document.rs
index 6d85773..7f2fe42 100644
--- a/rust/serde_tombi/src/document.rs
+++ b/rust/serde_tombi/src/document.rs
@@ -14,6 +14,39 @@ pub(crate) trait ToTomlString {
     );
 }
 
+/// The text of a key, quoted unless it is a bare key.
+fn to_key_string(key: &tombi_document::Key) -> std::string::String {
+    let value = key.value();
+    if !value.is_empty()
+        && value
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-'))
+    {
+        value.to_string()
+    } else {
+        tombi_toml_text::to_basic_string(value)
+    }
+}
+
+fn to_dotted_keys(keys: &[&tombi_document::Key]) -> std::string::String {
+    keys.iter().copied().map(to_key_string).join(".")
+}
+
+fn is_table(value: &tombi_document::Value) -> bool {
+    matches!(value, tombi_document::Value::Table(table) if table.kind() == tombi_document::TableKind::Table)
+}
+
+/// Only a non-empty array that consists of tables can be written as `[[array]]`.
+fn is_array_of_tables(value: &tombi_document::Value) -> bool {
+    matches!(value, tombi_document::Value::Array(array)
+        if array.kind() == tombi_document::ArrayKind::ArrayOfTable
+            && !array.values().is_empty()
+            && array
+                .values()
+                .iter()
+                .all(|value| matches!(value, tombi_document::Value::Table(_))))
+}
+
 impl ToTomlString for (&tombi_document::Key, &tombi_document::Value) {
     fn to_toml_string(
         &self,
@@ -21,27 +54,24 @@ impl ToTomlString for (&tombi_document::Key, &tombi_document::Value) {
         parent_keys: &[&tombi_document::Key],
     ) {
         let (key, value) = *self;
+        let keys = parent_keys.iter().chain(&[key]).copied().collect_vec();
         match value {
             tombi_document::Value::Table(table)
-                if table.kind() == tombi_document::TableKind::KeyValue =>
+                if table.kind() == tombi_document::TableKind::KeyValue
+                    && !table.key_values().is_empty() =>
             {
-                table.to_toml_string(
-                    result,
-                    &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                );
+                table.to_toml_string(result, &keys);
             }
             _ => {
-                result.push_str(&format!(
-                    "{} = ",
-                    parent_keys.iter().chain(&[key]).copied().join(".")
-                ));
+                result.push_str(&format!("{} = ", to_dotted_keys(&keys)));
                 value.to_toml_string(result, &[]);
+                result.push('\n');
             }
         }
-        result.push('\n');
     }
 }
 
+/// Writes the value where it stands, that is after `key = ` or in an array or inline table.
 impl ToTomlString for tombi_document::Value {
     fn to_toml_string(
         &self,
@@ -49,12 +79,12 @@ impl ToTomlString for tombi_document::Value {
         parent_keys: &[&tombi_document::Key],
     ) {
         match self {
-            tombi_document::Value::String(s) => result.push_str(&format!("\"{}\"", s.value())),
+            tombi_document::Value::String(s) => s.to_toml_string(result, parent_keys),
             tombi_document::Value::Integer(i) => result.push_str(&i.value().to_string()),
-            tombi_document::Value::Float(f) => result.push_str(&f.value().to_string()),
-            tombi_document::Value::Boolean(b) => result.push_str(&b.value().to_string()),
+            tombi_document::Value::Float(f) => f.to_toml_string(result, parent_keys),
+            tombi_document::Value::Boolean(b) => b.to_toml_string(result, parent_keys),
             tombi_document::Value::Array(a) => a.to_toml_string(result, parent_keys),
-            tombi_document::Value::Table(t) => t.to_toml_string(result, parent_keys),
+            tombi_document::Value::Table(t) => inline_table_to_toml_string(result, t),
             tombi_document::Value::OffsetDateTime(dt) => result.push_str(&dt.to_string()),
             tombi_document::Value::LocalDateTime(dt) => result.push_str(&dt.to_string()),
             tombi_document::Value::LocalDate(d) => result.push_str(&d.to_string()),
@@ -71,77 +101,18 @@ impl ToTomlString for tombi_document::Table {
     ) {
         match self.kind() {
             tombi_document::TableKind::Table => {
-                if self.key_values().len() == 1
-                    && let Some((key, value)) = self.key_values().iter().next()
-                {
-                    match value {
-                        tombi_document::Value::Table(table)
-                            if table.kind() == tombi_document::TableKind::Table =>
-                        {
-                            return table.to_toml_string(
-                                result,
-                                &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                            );
-                        }
-                        tombi_document::Value::Array(array)
-                            if array.kind() == tombi_document::ArrayKind::ArrayOfTable =>
-                        {
-                            return array.to_toml_string(
-                                result,
-                                &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                            );
-                        }
-                        _ => {}
+                let needs_header = match self.key_values().iter().next() {
+                    Some((_, value)) if self.key_values().len() == 1 => {
+                        !is_table(value) && !is_array_of_tables(value)
                     }
+                    _ => true,
+                };
+                if needs_header && !parent_keys.is_empty() {
+                    result.push_str(&format!("[{}]\n", to_dotted_keys(parent_keys)));
                 }
-
-                if !parent_keys.is_empty() {
-                    result.push_str(&format!(
-                        "[{}]\n",
-                        parent_keys
-                            .iter()
-                            .map(ToString::to_string)
-                            .collect_vec()
-                            .join(".")
-                    ));
-                }
-
-                let mut table_key_values = Vec::new();
-                for (key, value) in self.key_values() {
-                    match value {
-                        tombi_document::Value::Table(table)
-                            if table.kind() == tombi_document::TableKind::Table =>
-                        {
-                            table_key_values.push((key, value));
-                            continue;
-                        }
-                        tombi_document::Value::Array(array)
-                            if array.kind() == tombi_document::ArrayKind::ArrayOfTable =>
-                        {
-                            table_key_values.push((key, value));
-                            continue;
-                        }
-                        _ => (key, value).to_toml_string(result, &[]),
-                    }
-                }
-
-                for (key, value) in table_key_values {
-                    value.to_toml_string(
-                        result,
-                        &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                    );
-                }
-            }
-            tombi_document::TableKind::InlineTable => {
-                result.push('{');
-                for (i, (key, value)) in self.key_values().iter().enumerate() {
-                    if i != 0 {
-                        result.push_str(", ");
-                    }
-                    inline_table_entry_to_toml_string(result, key, value);
-                }
-                result.push('}');
+                table_body_to_toml_string(result, self, parent_keys);
             }
+            tombi_document::TableKind::InlineTable => inline_table_to_toml_string(result, self),
             tombi_document::TableKind::KeyValue => {
                 for key_value in self.key_values() {
                     key_value.to_toml_string(result, parent_keys);
@@ -151,83 +122,64 @@ impl ToTomlString for tombi_document::Table {
     }
 }
 
-fn inline_table_entry_to_toml_string(
+/// Writes what follows the header of a table. Sub-tables come after all other values.
+fn table_body_to_toml_string(
     result: &mut std::string::String,
-    key: &tombi_document::Key,
-    value: &tombi_document::Value,
+    table: &tombi_document::Table,
+    parent_keys: &[&tombi_document::Key],
 ) {
-    result.push_str(&format!("{key} = "));
-    match value {
-        tombi_document::Value::Table(table)
-            if table.kind() == tombi_document::TableKind::KeyValue =>
-        {
-            result.push('{');
-            for (i, (nested_key, nested_value)) in table.key_values().iter().enumerate() {
-                if i != 0 {
-                    result.push_str(", ");
+    let mut sub_tables = Vec::new();
+    for (key, value) in table.key_values() {
+        if is_table(value) || is_array_of_tables(value) {
+            sub_tables.push((key, value));
+        } else {
+            (key, value).to_toml_string(result, &[]);
+        }
+    }
+
+    for (key, value) in sub_tables {
+        let keys = parent_keys.iter().chain(&[key]).copied().collect_vec();
+        match value {
+            tombi_document::Value::Table(table) => table.to_toml_string(result, &keys),
+            tombi_document::Value::Array(array) => {
+                for value in array.values() {
+                    result.push_str(&format!("[[{}]]\n", to_dotted_keys(&keys)));
+                    if let tombi_document::Value::Table(table) = value {
+                        table_body_to_toml_string(result, table, &keys);
+                    }
                 }
-                inline_table_entry_to_toml_string(result, nested_key, nested_value);
             }
-            result.push('}');
+            _ => {}
+        }
+    }
+}
+
+fn inline_table_to_toml_string(result: &mut std::string::String, table: &tombi_document::Table) {
+    result.push('{');
+    for (i, (key, value)) in table.key_values().iter().enumerate() {
+        if i != 0 {
+            result.push_str(", ");
         }
-        _ => value.to_toml_string(result, &[]),
+        result.push_str(&format!("{} = ", to_key_string(key)));
+        value.to_toml_string(result, &[]);
     }
+    result.push('}');
 }
 
 impl ToTomlString for tombi_document::Array {
     fn to_toml_string(
         &self,
         result: &mut std::string::String,
-        parent_keys: &[&tombi_document::Key],
+        _parent_keys: &[&tombi_document::Key],
     ) {
-        match self.kind() {
-            tombi_document::ArrayKind::Array => {
-                result.push('[');
-                if !self.values().is_empty() {
-                    for (i, value) in self.values().iter().enumerate() {
-                        if i != 0 {
-                            result.push_str(", ");
-                        }
-                        value.to_toml_string(result, parent_keys);
-                    }
-                }
-                result.push(']');
-            }
-            tombi_document::ArrayKind::ArrayOfTable => {
-                for value in self.values().iter() {
-                    result.push_str(&format!(
-                        "[[{}]]\n",
-                        parent_keys
-                            .iter()
-                            .map(ToString::to_string)
-                            .collect_vec()
-                            .join(".")
-                    ));
-                    if let tombi_document::Value::Table(table) = value {
-                        for (key, value) in table.key_values() {
-                            match value {
-                                tombi_document::Value::Table(table)
-                                    if table.kind() == tombi_document::TableKind::KeyValue =>
-                                {
-                                    table.to_toml_string(
-                                        result,
-                                        &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                                    );
-                                }
-                                _ => {
-                                    result.push_str(&format!("{key} = "));
-                                    value.to_toml_string(
-                                        result,
-                                        &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                                    );
-                                }
-                            }
-                            result.push('\n');
-                        }
-                    }
-                }
+        result.push('[');
+        for (i, value) in self.values().iter().enumerate() {
+            if i != 0 {
+                result.push_str(", ");
             }
+            value.to_toml_string(result, &[]);
         }
+        result.push(']');
     }
 }
 
@@ -247,16 +199,11 @@ impl ToTomlString for tombi_document::Float {
         result: &mut std::string::String,
         _parent_keys: &[&tombi_document::Key],
     ) {
-        if self.value().is_infinite() {
-            if self.value().is_sign_positive() {
-                result.push_str("inf");
-            } else {
-                result.push_str("-inf");
-            }
-        } else if self.value().is_nan() {
+        if self.value().is_nan() {
             result.push_str("nan");
         } else {
-            result.push_str(&self.value().to_string());
+            // keeps the fraction of whole numbers, so that a float stays a float
+            result.push_str(&format!("{:?}", self.value()));
         }
     }
 }
@@ -267,20 +214,8 @@ impl ToTomlString for tombi_document::String {
         result: &mut std::string::String,
         _parent_keys: &[&tombi_document::Key],
     ) {
-        match self.kind() {
-            tombi_document::StringKind::BasicString => {
-                result.push_str(&tombi_toml_text::to_basic_string(self.value()));
-            }
-            tombi_document::StringKind::LiteralString => {
-                result.push_str(&tombi_toml_text::to_literal_string(self.value()));
-            }
-            tombi_document::StringKind::MultiLineBasicString => {
-                result.push_str(&tombi_toml_text::to_multi_line_basic_string(self.value()));
-            }
-            tombi_document::StringKind::MultiLineLiteralString => {
-                result.push_str(&tombi_toml_text::to_multi_line_literal_string(self.value()));
-            }
-        }
+        // the other kinds of strings cannot hold every text
+        result.push_str(&tombi_toml_text::to_basic_string(self.value()));
     }
 }
 
-- 
2.43.0


From a909dc4c78d51b0a4fd02679c6e98c108596cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 30/97] fix: deserialize date-times

---
 crates/tombi-document/src/value.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-document/src/value.rs b/crates/tombi-document/src/value.rs
index 24e27da..9669abe 100644
--- a/crates/tombi-document/src/value.rs
+++ b/crates/tombi-document/src/value.rs
@@ -351,7 +351,21 @@ impl<'de> serde::de::Deserializer<'de> for &'de Value {
     where
         V: serde::de::Visitor<'de>,
     {
-        visitor.visit_newtype_struct(self)
+        match self {
+            Value::OffsetDateTime(value) => {
+                visitor.visit_newtype_struct(value.to_string().into_deserializer())
+            }
+            Value::LocalDateTime(value) => {
+                visitor.visit_newtype_struct(value.to_string().into_deserializer())
+            }
+            Value::LocalDate(value) => {
+                visitor.visit_newtype_struct(value.to_string().into_deserializer())
+            }
+            Value::LocalTime(value) => {
+                visitor.visit_newtype_struct(value.to_string().into_deserializer())
+            }
+            _ => visitor.visit_newtype_struct(self),
+        }
     }
 
     fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 73a6cef5ed6bf1535d02dfcea61959e5ce579c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 31/97] fix: refuse to serialize integers that TOML cannot hold

---
 rust/serde_tombi/src/ser.rs       | 5 ++++-
 rust/serde_tombi/src/ser/error.rs | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/serde_tombi/src/ser.rs b/rust/serde_tombi/src/ser.rs
index 124f258..79b5fdb 100644
--- a/rust/serde_tombi/src/ser.rs
+++ b/rust/serde_tombi/src/ser.rs
@@ -207,7 +207,10 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
     }
 
     fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
+        match i64::try_from(v) {
+            Ok(v) => self.serialize_i64(v),
+            Err(_) => Err(crate::ser::Error::IntegerOutOfRange(v)),
+        }
     }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
diff --git a/rust/serde_tombi/src/ser/error.rs b/rust/serde_tombi/src/ser/error.rs
index 532a5d4..89a7280 100644
--- a/rust/serde_tombi/src/ser/error.rs
+++ b/rust/serde_tombi/src/ser/error.rs
@@ -34,6 +34,9 @@ pub enum Error {
     #[error("{0} required")]
     ArrayValueRequired(tombi_schema_store::Accessors),
 
+    #[error("{0} is out of the range of TOML integers")]
+    IntegerOutOfRange(u64),
+
     #[error("TOML does not support unit values")]
     SerializeUnit,
 
-- 
2.43.0


From e030dca8ff3e2f259ae5b8e750bfaada52a97e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 32/97] fix: serialize enum variants with values as they are
 deserialized

---
 rust/serde_tombi/src/ser.rs | 65 +++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/rust/serde_tombi/src/ser.rs b/rust/serde_tombi/src/ser.rs
index 79b5fdb..eea973e 100644
--- a/rust/serde_tombi/src/ser.rs
+++ b/rust/serde_tombi/src/ser.rs
@@ -164,10 +164,10 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
     type SerializeSeq = SerializeArray<'a>;
     type SerializeTuple = SerializeArray<'a>;
     type SerializeTupleStruct = SerializeArray<'a>;
-    type SerializeTupleVariant = SerializeArray<'a>;
+    type SerializeTupleVariant = SerializeVariant<SerializeArray<'a>>;
     type SerializeMap = SerializeTable<'a>;
     type SerializeStruct = SerializeTable<'a>;
-    type SerializeStructVariant = SerializeTable<'a>;
+    type SerializeStructVariant = SerializeVariant<SerializeTable<'a>>;
 
     // Basic type serialization
     fn serialize_bool(self, v: bool) -> Result<Self::Ok, Self::Error> {
@@ -305,13 +305,20 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error>
     where
         T: ?Sized + Serialize,
     {
-        value.serialize(&mut *self)
+        match value.serialize(&mut ValueSerializer {
+            accessors: self.accessors,
+        })? {
+            Some(value) => Ok(Some(variant_to_table(variant, value))),
+            None => Err(crate::ser::Error::ValueRequired(
+                tombi_schema_store::Accessors::from(self.accessors.to_vec()),
+            )),
+        }
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
@@ -349,13 +356,12 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SerializeArray {
-            kind: tombi_document::ArrayKind::ArrayOfTable,
-            accessors: self.accessors,
-            values: Vec::with_capacity(len),
+        Ok(SerializeVariant {
+            variant,
+            value: self.serialize_tuple(len)?,
         })
     }
 
@@ -386,13 +392,12 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        Ok(SerializeTable {
-            accessors: self.accessors,
-            key: None,
-            key_values: Vec::with_capacity(len),
+        Ok(SerializeVariant {
+            variant,
+            value: self.serialize_map(Some(len))?,
         })
     }
 }
@@ -495,7 +500,7 @@ impl serde::ser::SerializeTupleStruct for SerializeArray<'_> {
     }
 }
 
-impl serde::ser::SerializeTupleVariant for SerializeArray<'_> {
+impl serde::ser::SerializeTupleVariant for SerializeVariant<SerializeArray<'_>> {
     type Ok = Option<tombi_document::Value>;
     type Error = crate::ser::Error;
 
@@ -503,14 +508,33 @@ impl serde::ser::SerializeTupleVariant for SerializeArray<'_> {
     where
         T: ?Sized + Serialize,
     {
-        serde::ser::SerializeSeq::serialize_element(self, value)
+        serde::ser::SerializeSeq::serialize_element(&mut self.value, value)
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        serde::ser::SerializeSeq::end(self)
+        let value = serde::ser::SerializeSeq::end(self.value)?;
+        Ok(value.map(|value| variant_to_table(self.variant, value)))
     }
 }
 
+/// An enum variant with fields, which is a table with the variant as its only key.
+pub struct SerializeVariant<S> {
+    variant: &'static str,
+    value: S,
+}
+
+fn variant_to_table(variant: &'static str, value: tombi_document::Value) -> tombi_document::Value {
+    let mut table = tombi_document::Table::new(tombi_document::TableKind::Table);
+    table.insert(
+        tombi_document::Key::from(tombi_document::String::new(
+            tombi_document::StringKind::BasicString,
+            variant.to_string(),
+        )),
+        value,
+    );
+    tombi_document::Value::Table(table)
+}
+
 fn force_inline(value: &mut tombi_document::Value) {
     match value {
         tombi_document::Value::Table(table) => {
@@ -620,7 +644,7 @@ impl serde::ser::SerializeStruct for SerializeTable<'_> {
     }
 }
 
-impl serde::ser::SerializeStructVariant for SerializeTable<'_> {
+impl serde::ser::SerializeStructVariant for SerializeVariant<SerializeTable<'_>> {
     type Ok = Option<tombi_document::Value>;
     type Error = crate::ser::Error;
 
@@ -629,12 +653,13 @@ impl serde::ser::SerializeStructVariant for SerializeTable<'_> {
     where
         T: ?Sized + Serialize,
     {
-        serde::ser::SerializeStruct::serialize_field(self, key, value)
+        serde::ser::SerializeMap::serialize_entry(&mut self.value, key, value)
     }
 
     #[inline]
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        serde::ser::SerializeStruct::end(self)
+        let value = serde::ser::SerializeMap::end(self.value)?;
+        Ok(value.map(|value| variant_to_table(self.variant, value)))
     }
 }
 
-- 
2.43.0


From fcddb144dc2605056f79d15d7ce5072a017fe2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:25 +0000
Subject: [PATCH 33/97] fix: keep the order of equal values when sorting an
 array in descending order

---
 .../src/rule/array_values_order.rs                | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 8ca1c1e..a93bdc3 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -297,7 +297,9 @@ fn sort_array_values(
             .into_iter()
             .map(|(value, comma)| (value, Some(comma)))
             .collect_vec(),
+        // Equal values keep their order.
         ArrayValuesOrder::Descending => sortable_values
+            .reversed()
             .sorted()
             .into_iter()
             .rev()
@@ -636,6 +638,19 @@ impl SortableValues {
         Ok(sortable_values)
     }
 
+    fn reversed(mut self) -> Self {
+        match &mut self {
+            Self::Boolean(sortable_values) => sortable_values.reverse(),
+            Self::Integer(sortable_values) => sortable_values.reverse(),
+            Self::OffsetDateTime(sortable_values)
+            | Self::String(sortable_values)
+            | Self::LocalDateTime(sortable_values)
+            | Self::LocalDate(sortable_values)
+            | Self::LocalTime(sortable_values) => sortable_values.reverse(),
+        }
+        self
+    }
+
     pub fn sorted(self) -> Vec<(tombi_ast::Value, tombi_ast::Comma)> {
         match self {
             Self::Boolean(mut sortable_values) => {
-- 
2.43.0


From 9cef14c31419ef41ad3cbe35adb06b2146c10b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 34/97] fix: sort offset date-times by instant

---
 .../src/rule/array_values_order.rs            |  8 ++---
 .../array_values_order/offset_date_time.rs    |  8 +++--
 .../tombi-date-time/src/offset_date_time.rs   | 30 +++++++++++++++++++
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index a93bdc3..7893aa9 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -383,7 +383,7 @@ enum SortableValues {
     Boolean(Vec<(bool, tombi_ast::Value, tombi_ast::Comma)>),
     Integer(Vec<(i64, tombi_ast::Value, tombi_ast::Comma)>),
     String(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
-    OffsetDateTime(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
+    OffsetDateTime(Vec<((i64, u32), tombi_ast::Value, tombi_ast::Comma)>),
     LocalDateTime(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
     LocalDate(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
     LocalTime(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
@@ -642,8 +642,8 @@ impl SortableValues {
         match &mut self {
             Self::Boolean(sortable_values) => sortable_values.reverse(),
             Self::Integer(sortable_values) => sortable_values.reverse(),
-            Self::OffsetDateTime(sortable_values)
-            | Self::String(sortable_values)
+            Self::OffsetDateTime(sortable_values) => sortable_values.reverse(),
+            Self::String(sortable_values)
             | Self::LocalDateTime(sortable_values)
             | Self::LocalDate(sortable_values)
             | Self::LocalTime(sortable_values) => sortable_values.reverse(),
@@ -678,7 +678,7 @@ impl SortableValues {
                     .collect_vec()
             }
             Self::OffsetDateTime(mut sortable_values) => {
-                sortable_values.sort_by_key(|(key, _, _)| key.clone());
+                sortable_values.sort_by_key(|(key, _, _)| *key);
 
                 sortable_values
                     .into_iter()
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs b/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs
index be0be53..f9eb9ad 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs
@@ -25,7 +25,11 @@ pub async fn create_offset_date_time_sortable_values<'a>(
             (
                 tombi_ast::Value::OffsetDateTime(_),
                 tombi_document_tree::Value::OffsetDateTime(offset_date_time_node),
-            ) => sortable_values.push((offset_date_time_node.to_string(), value, comma)),
+            ) => sortable_values.push((
+                offset_date_time_node.value().timestamp(),
+                value,
+                comma,
+            )),
             (
                 tombi_ast::Value::InlineTable(inline_table),
                 tombi_document_tree::Value::Table(table_node),
@@ -62,7 +66,7 @@ pub async fn create_offset_date_time_sortable_values<'a>(
                                 )) = table_node.get(&key_text)
                             {
                                 sortable_values.push((
-                                    offset_date_time_node.to_string(),
+                                    offset_date_time_node.value().timestamp(),
                                     value,
                                     comma,
                                 ));
diff --git a/crates/tombi-date-time/src/offset_date_time.rs b/crates/tombi-date-time/src/offset_date_time.rs
index 1c17ecf..b09047a 100644
--- a/crates/tombi-date-time/src/offset_date_time.rs
+++ b/crates/tombi-date-time/src/offset_date_time.rs
@@ -76,6 +76,36 @@ impl OffsetDateTime {
     pub fn offset(&self) -> crate::TimeZoneOffset {
         self.offset
     }
+
+    /// The instant, as the seconds since 1970-01-01T00:00:00Z and the nanoseconds of the second.
+    pub fn timestamp(&self) -> (i64, u32) {
+        let (year, month, day) = (
+            i64::from(self.date.year),
+            i64::from(self.date.month),
+            i64::from(self.date.day),
+        );
+        // Years start in March, so that the leap day comes last.
+        let (year, month) = if month <= 2 {
+            (year - 1, month + 9)
+        } else {
+            (year, month - 3)
+        };
+        let days = 365 * year + year.div_euclid(4) - year.div_euclid(100) + year.div_euclid(400)
+            + (153 * month + 2) / 5
+            + day
+            - 719_469;
+        let offset_minutes = match self.offset {
+            crate::TimeZoneOffset::Z => 0,
+            crate::TimeZoneOffset::Custom { minutes } => i64::from(minutes),
+        };
+        let minutes =
+            (days * 24 + i64::from(self.time.hour)) * 60 + i64::from(self.time.minute) - offset_minutes;
+
+        (
+            minutes * 60 + i64::from(self.time.second),
+            self.time.nanosecond,
+        )
+    }
 }
 
 impl std::str::FromStr for OffsetDateTime {
-- 
2.43.0


From d9cddf68e7417f536b06af38625891c85e9d7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 35/97] fix: directives beside the comma behind a key-value
 apply to its array or inline table

---
 crates/tombi-ast-editor/src/edit.rs           | 25 +++++++++++++++++++
 crates/tombi-ast-editor/src/edit/array.rs     |  5 ++--
 .../tombi-ast-editor/src/edit/inline_table.rs |  5 ++--
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-ast-editor/src/edit.rs b/crates/tombi-ast-editor/src/edit.rs
index 9cb9bf9..433d352 100644
--- a/crates/tombi-ast-editor/src/edit.rs
+++ b/crates/tombi-ast-editor/src/edit.rs
@@ -1,6 +1,7 @@
 use std::sync::Arc;
 
 use itertools::Itertools;
+use tombi_ast::AstNode;
 use tombi_future::{BoxFuture, Boxable};
 use tombi_schema_store::{
     Accessor, AllOfSchema, AnyOfSchema, OneOfSchema, SchemaAccessor, SchemaView,
@@ -26,6 +27,30 @@ pub trait Edit {
     ) -> BoxFuture<'b, Vec<crate::Change>>;
 }
 
+/// Comment directives of a key-value, including those beside the comma behind it.
+fn key_value_comment_directives(
+    key_value: &tombi_ast::KeyValue,
+) -> Vec<tombi_ast::TombiValueCommentDirective> {
+    let comma = key_value
+        .syntax()
+        .next_sibling()
+        .and_then(tombi_ast::Comma::cast);
+
+    key_value
+        .comment_directives()
+        .chain(comma.iter().flat_map(|comma| {
+            comma
+                .leading_comments()
+                .filter_map(|comment| comment.get_tombi_value_directive())
+                .chain(
+                    comma
+                        .trailing_comment()
+                        .and_then(|comment| comment.get_tombi_value_directive()),
+                )
+        }))
+        .collect()
+}
+
 fn edit_recursive<'a: 'b, 'b>(
     node: &'a tombi_document_tree::Value,
     edit_fn: impl FnOnce(
diff --git a/crates/tombi-ast-editor/src/edit/array.rs b/crates/tombi-ast-editor/src/edit/array.rs
index 2bdaf51..197ffd4 100644
--- a/crates/tombi-ast-editor/src/edit/array.rs
+++ b/crates/tombi-ast-editor/src/edit/array.rs
@@ -6,6 +6,7 @@ use tombi_future::{BoxFuture, Boxable};
 use tombi_schema_store::{Accessor, AllOfSchema, AnyOfSchema, OneOfSchema, SchemaView};
 use tombi_validator::Validate;
 
+use crate::edit::key_value_comment_directives;
 use crate::rule::{array_comma_trailing_comment, array_values_order};
 
 impl crate::Edit for tombi_ast::Array {
@@ -78,8 +79,8 @@ impl crate::Edit for tombi_ast::Array {
                     if let Some(key_value) =
                         self.syntax().parent().and_then(tombi_ast::KeyValue::cast)
                     {
-                        key_value
-                            .comment_directives()
+                        key_value_comment_directives(&key_value)
+                            .into_iter()
                             .chain(self.comment_directives())
                             .collect_vec()
                     } else {
diff --git a/crates/tombi-ast-editor/src/edit/inline_table.rs b/crates/tombi-ast-editor/src/edit/inline_table.rs
index 3f1c840..850e502 100644
--- a/crates/tombi-ast-editor/src/edit/inline_table.rs
+++ b/crates/tombi-ast-editor/src/edit/inline_table.rs
@@ -5,6 +5,7 @@ use tombi_comment_directive_serde::get_comment_directive_content;
 use tombi_future::{BoxFuture, Boxable};
 use tombi_schema_store::Accessor;
 
+use crate::edit::key_value_comment_directives;
 use crate::rule::{inline_table_comma_trailing_comment, inline_table_keys_order};
 
 impl crate::Edit for tombi_ast::InlineTable {
@@ -52,8 +53,8 @@ impl crate::Edit for tombi_ast::InlineTable {
                     if let Some(key_value) =
                         self.syntax().parent().and_then(tombi_ast::KeyValue::cast)
                     {
-                        key_value
-                            .comment_directives()
+                        key_value_comment_directives(&key_value)
+                            .into_iter()
                             .chain(self.comment_directives())
                             .collect_vec()
                     } else {
-- 
2.43.0


From f6c4cf4f5deadf8a895143e23e49ba52ac93fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 36/97] fix: no panic when the schema does not match the kind
 of a value

---
 crates/tombi-ast-editor/src/edit.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-ast-editor/src/edit.rs b/crates/tombi-ast-editor/src/edit.rs
index 433d352..523ac28 100644
--- a/crates/tombi-ast-editor/src/edit.rs
+++ b/crates/tombi-ast-editor/src/edit.rs
@@ -152,11 +152,12 @@ fn edit_recursive<'a: 'b, 'b>(
         let key_accessors = &key_accessors[1..];
 
         if let Some(current_schema) = current_schema.as_ref() {
-            match current_schema.schema_view.as_ref() {
-                SchemaView::Table(table_schema) => {
-                    let Some(Accessor::Key(key_text)) = accessors.as_ref().last() else {
-                        unreachable!("last accessor is not a key");
-                    };
+            // The schema may not match the kind of the value.
+            match (
+                current_schema.schema_view.as_ref(),
+                accessors.as_ref().last(),
+            ) {
+                (SchemaView::Table(table_schema), Some(Accessor::Key(key_text))) => {
                     let key_schema_accessor = SchemaAccessor::Key(key_text.to_owned());
 
                     if let Ok(Some(current_schema)) = table_schema
@@ -249,7 +250,7 @@ fn edit_recursive<'a: 'b, 'b>(
                         };
                     }
                 }
-                SchemaView::Array(array_schema) => {
+                (SchemaView::Array(array_schema), Some(Accessor::Index(_))) => {
                     if let Some(items) = &array_schema.items
                         && let Ok(Some(current_schema)) = tombi_schema_store::resolve_schema_item(
                             items,
-- 
2.43.0


From 41253653fa27c6ae2d912156fc8d1b4e3d86dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 37/97] fix: sort keys and headers under the schema of the
 value, also for quoted keys, elements of arrays and pattern properties

---
 .../src/rule/table_keys_order.rs              | 75 ++++++++++++++++++-
 1 file changed, 72 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-ast-editor/src/rule/table_keys_order.rs b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
index 104b541..579bd5a 100644
--- a/crates/tombi-ast-editor/src/rule/table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
@@ -238,9 +238,12 @@ where
                 };
 
                 for (accessor, targets) in sorted_targets {
-                    if let Some(value) = table.get(&accessor.to_string())
-                        && let (Some(current_schema), Some(table_schema)) =
-                            (current_schema, table_schema)
+                    let Some(value) = accessor.as_key().and_then(|key| table.get(key)) else {
+                        results.extend(targets.into_iter().map(|(_, target)| target));
+                        continue;
+                    };
+                    if let (Some(current_schema), Some(table_schema)) =
+                        (current_schema, table_schema)
                     {
                         if let Ok(Some(current_schema)) = table_schema
                             .resolve_property_schema(
@@ -271,6 +274,33 @@ where
                             );
                             continue;
                         }
+                        if let Some(current_schema) =
+                            get_pattern_property_schema(
+                                table_schema,
+                                &accessor,
+                                current_schema,
+                                schema_context,
+                            )
+                            .await
+                        {
+                            results.extend(
+                                get_sorted_accessors(
+                                    value,
+                                    &accessors
+                                        .iter()
+                                        .cloned()
+                                        .chain(std::iter::once(accessor))
+                                        .collect_vec(),
+                                    targets,
+                                    Some(&current_schema),
+                                    schema_context,
+                                    order,
+                                    table_order_overrides,
+                                )
+                                .await?,
+                            );
+                            continue;
+                        }
                         if let Some((_, referable_schema)) =
                             &table_schema.additional_property_schema
                             && let Ok(Some(current_schema)) =
@@ -398,6 +428,45 @@ where
     .boxed()
 }
 
+async fn get_pattern_property_schema<'a>(
+    table_schema: &'a TableSchema,
+    accessor: &Accessor,
+    current_schema: &'a CurrentSchema<'a>,
+    schema_context: &'a SchemaContext<'a>,
+) -> Option<CurrentSchema<'a>> {
+    let pattern_keys = table_schema
+        .pattern_properties
+        .as_ref()?
+        .read()
+        .await
+        .keys()
+        .cloned()
+        .collect_vec();
+
+    for pattern_key in pattern_keys {
+        let Ok(pattern) = tombi_regex::Regex::new(&pattern_key) else {
+            log::warn!("invalid regex pattern property: {}", pattern_key);
+            continue;
+        };
+        if pattern.is_match(accessor.as_key()?)
+            && let Ok(Some(current_schema)) = table_schema
+                .resolve_pattern_property_schema(
+                    &pattern_key,
+                    current_schema.schema_uri.clone(),
+                    current_schema.definitions.clone(),
+                    current_schema.strict,
+                    schema_context.store,
+                )
+                .await
+                .inspect_err(|err| log::warn!("{err}"))
+        {
+            return Some(current_schema.into_owned());
+        }
+    }
+
+    None
+}
+
 #[allow(clippy::type_complexity)]
 async fn sort_targets<T>(
     mut targets: Vec<(Accessor, Vec<(Vec<Accessor>, T)>)>,
-- 
2.43.0


From 8201c05575af146d065f9d478e56dfbeefdae0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 38/97] fix: sorting an array adds no comma behind a last value
 that stays the last

---
 crates/tombi-ast-editor/src/rule/array_values_order.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 7893aa9..74e1daf 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -95,9 +95,10 @@ pub async fn array_values_order<'a>(
         .map(|(_, comma)| comma.is_some())
         .unwrap_or_default();
 
+    let last_value = values_with_comma.last().unwrap().0.syntax().clone();
     let old = std::ops::RangeInclusive::new(
         SyntaxElement::Node(values_with_comma.first().unwrap().0.syntax().clone()),
-        SyntaxElement::Node(values_with_comma.last().unwrap().0.syntax().clone()),
+        SyntaxElement::Node(last_value.clone()),
     );
     let sorted_values_with_comma = match values_order {
         XTombiArrayValuesOrder::All(values_order) => {
@@ -130,8 +131,8 @@ pub async fn array_values_order<'a>(
 
     if let Some((value, comma)) = sorted_values_with_comma.last_mut()
         && !is_last_comma
-        // Its trailing comment has been moved behind the comma.
-        && value.trailing_comment().is_none()
+        // Otherwise its trailing comment has been moved behind the comma.
+        && (value.trailing_comment().is_none() || *value.syntax() == last_value)
         && let Some(new_last_comma) = comma
         && new_last_comma.trailing_comment().is_none()
         && new_last_comma.leading_comments().next().is_none()
-- 
2.43.0


From a2f70789b3d2aa38a5832ed5b60d1313d2f87a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 39/97] fix: go to type definition of a property that is an
 unresolved $ref does not hang

---
 crates/tombi-lsp/src/goto_type_definition/value/table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-lsp/src/goto_type_definition/value/table.rs b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
index e05a283..2c3d62a 100644
--- a/crates/tombi-lsp/src/goto_type_definition/value/table.rs
+++ b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
@@ -68,13 +68,14 @@ impl GetTypeDefinition for tombi_document_tree::Table {
                                     .chain(std::iter::once(accessor))
                                     .collect_vec();
 
-                                if let Some(key_range) = table_schema
+                                // Release the lock: resolving the property schema writes to it.
+                                let key_range = table_schema
                                     .properties
                                     .read()
                                     .await
                                     .get(&schema_accessor)
-                                    .map(|property_schema| property_schema.key_range)
-                                {
+                                    .map(|property_schema| property_schema.key_range);
+                                if let Some(key_range) = key_range {
                                     if let Ok(Some(current_schema)) = table_schema
                                         .resolve_property_schema(
                                             &schema_accessor,
-- 
2.43.0


From 50eb3bf599d7ec030fe9c7fa8c13ca14033b5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 40/97] fix: fractional limits apply to integers, and
 multipleOf 0 does not panic

---
 .../src/schema/integer_schema.rs              | 40 ++++++++++++++++---
 .../tombi-validator/src/validate/integer.rs   |  1 +
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/integer_schema.rs b/crates/tombi-schema-store/src/schema/integer_schema.rs
index 00e0028..b07ebfe 100644
--- a/crates/tombi-schema-store/src/schema/integer_schema.rs
+++ b/crates/tombi-schema-store/src/schema/integer_schema.rs
@@ -43,11 +43,14 @@ impl IntegerSchema {
             description: object
                 .get("description")
                 .and_then(|v| v.as_str().map(|s| s.to_string())),
-            minimum: object.get("minimum").and_then(|v| v.as_i64()),
-            maximum: object.get("maximum").and_then(|v| v.as_i64()),
-            exclusive_minimum: object.get("exclusiveMinimum").and_then(|v| v.as_i64()),
-            exclusive_maximum: object.get("exclusiveMaximum").and_then(|v| v.as_i64()),
-            multiple_of: object.get("multipleOf").and_then(|v| v.as_i64()),
+            minimum: integer_limit(object, "minimum", f64::ceil),
+            maximum: integer_limit(object, "maximum", f64::floor),
+            exclusive_minimum: integer_limit(object, "exclusiveMinimum", f64::floor),
+            exclusive_maximum: integer_limit(object, "exclusiveMaximum", f64::ceil),
+            multiple_of: object.get("multipleOf").and_then(|v| {
+                v.as_i64()
+                    .or_else(|| v.as_f64().and_then(integer_multiple_of))
+            }),
             r#enum: object
                 .get("enum")
                 .and_then(|v| v.as_array())
@@ -75,3 +78,30 @@ impl IntegerSchema {
         self.deprecation.as_ref().map(|_| true)
     }
 }
+
+/// The limit an integer has to keep: a fractional limit is rounded to the
+/// integer that admits the same integers.
+fn integer_limit(
+    object: &tombi_json::ObjectNode,
+    keyword: &str,
+    round: fn(f64) -> f64,
+) -> Option<i64> {
+    let value = object.get(keyword)?;
+    value
+        .as_i64()
+        .or_else(|| value.as_f64().map(|limit| round(limit) as i64))
+}
+
+/// The integers which are multiples of the decimal fraction `p / q` in lowest
+/// terms are the multiples of `p`.
+fn integer_multiple_of(multiple_of: f64) -> Option<i64> {
+    let decimal = multiple_of.to_string();
+    let (integer, fraction) = decimal.split_once('.').unwrap_or((&decimal, ""));
+    let numerator = format!("{integer}{fraction}").parse::<i64>().ok()?;
+    let denominator = 10_i64.checked_pow(fraction.len().try_into().ok()?)?;
+    let (mut divisor, mut remainder) = (numerator, denominator);
+    while remainder != 0 {
+        (divisor, remainder) = (remainder, divisor % remainder);
+    }
+    (numerator > 0).then(|| numerator / divisor)
+}
diff --git a/crates/tombi-validator/src/validate/integer.rs b/crates/tombi-validator/src/validate/integer.rs
index ca2ef31..8913e8d 100644
--- a/crates/tombi-validator/src/validate/integer.rs
+++ b/crates/tombi-validator/src/validate/integer.rs
@@ -364,6 +364,7 @@ async fn validate_integer_schema(
     }
 
     if let Some(multiple_of) = &integer_schema.multiple_of
+        && *multiple_of > 0
         && value % *multiple_of != 0
     {
         assertion_failed = true;
-- 
2.43.0


From 1973cb110b31d1f50394e4316692c8c50f9647ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 41/97] fix: contains evaluates items since 2020-12 only

---
 crates/tombi-schema-store/src/schema/array_schema.rs | 4 ++++
 crates/tombi-validator/src/validate/array.rs         | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-schema-store/src/schema/array_schema.rs b/crates/tombi-schema-store/src/schema/array_schema.rs
index 0fd9495..0899853 100644
--- a/crates/tombi-schema-store/src/schema/array_schema.rs
+++ b/crates/tombi-schema-store/src/schema/array_schema.rs
@@ -28,6 +28,9 @@ pub struct ArraySchema {
     pub contains: Option<SchemaItem>,
     pub min_contains: Option<usize>,
     pub max_contains: Option<usize>,
+    /// Whether the items matching `contains` count as evaluated, as they do
+    /// since Draft 2020-12.
+    pub contains_evaluates_items: bool,
     pub min_items: Option<usize>,
     pub max_items: Option<usize>,
     pub unique_items: Option<bool>,
@@ -169,6 +172,7 @@ impl ArraySchema {
                     dynamic_anchor_collector.as_deref_mut(),
                 )
             }),
+            contains_evaluates_items: uses_prefix_items_semantics,
             min_contains: object
                 .get("minContains")
                 .and_then(|v| v.as_u64().map(|n| n as usize)),
diff --git a/crates/tombi-validator/src/validate/array.rs b/crates/tombi-validator/src/validate/array.rs
index 0de6553..c647385 100644
--- a/crates/tombi-validator/src/validate/array.rs
+++ b/crates/tombi-validator/src/validate/array.rs
@@ -444,7 +444,7 @@ async fn validate_array(
         }
 
         for (index, matched) in contains_evaluated.iter().enumerate() {
-            if *matched {
+            if *matched && array_schema.contains_evaluates_items {
                 evaluated[index] = true;
             }
         }
-- 
2.43.0


From a78a03b94b17cd4786777589ac84f41b652977a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 42/97] fix: only applied dependent schemas evaluate
 properties, and unevaluatedProperties evaluates the rest

---
 crates/tombi-validator/src/validate/table.rs | 29 ++++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index 88e135e..a5a662f 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -971,6 +971,7 @@ async fn validate_table(
     let comment_directives = table_value
         .comment_directives()
         .map(|directives| directives.cloned().collect_vec());
+    mark_properties_of_unevaluated_schema(&mut evaluated_locations, table_value, table_schema);
     evaluated_locations.match_evidence = match_evidence.clone();
     let base_result = if total_diagnostics.is_empty() && !assertion_failed {
         Ok(evaluated_locations)
@@ -1094,7 +1095,9 @@ fn collect_evaluated_properties_from_table_schema<'a>(
                             result.mark_property(key.clone());
                         }
                     }
-                    tombi_schema_store::Dependency::Schema(schema_item) => {
+                    tombi_schema_store::Dependency::Schema(schema_item)
+                        if table_value.contains_key(dependent_key) =>
+                    {
                         result.merge_from(
                             collect_evaluated_properties_from_schema_item(
                                 table_value,
@@ -1107,6 +1110,7 @@ fn collect_evaluated_properties_from_table_schema<'a>(
                             .await,
                         );
                     }
+                    tombi_schema_store::Dependency::Schema(_) => {}
                 }
             }
         }
@@ -1123,6 +1127,9 @@ fn collect_evaluated_properties_from_table_schema<'a>(
         if let Some(dependent_schemas) = &table_schema.dependent_schemas {
             for (dependent_key, schema_item) in dependent_schemas {
                 result.mark_property(dependent_key.clone());
+                if !table_value.contains_key(dependent_key) {
+                    continue;
+                }
                 result.merge_from(
                     collect_evaluated_properties_from_schema_item(
                         table_value,
@@ -1207,6 +1214,20 @@ fn collect_evaluated_properties_from_table_schema<'a>(
     .boxed()
 }
 
+/// The schema of `unevaluatedProperties` applies to every property nothing else
+/// evaluates, so an outer `unevaluatedProperties` sees all of them as evaluated.
+fn mark_properties_of_unevaluated_schema(
+    evaluated_locations: &mut crate::Valid,
+    table_value: &tombi_document_tree::Table,
+    table_schema: &tombi_schema_store::TableSchema,
+) {
+    if table_schema.unevaluated_property_schema.is_some() {
+        for key in table_value.keys() {
+            evaluated_locations.mark_property(key.value.to_string());
+        }
+    }
+}
+
 fn collect_evaluated_properties_from_schema_item<'a>(
     table_value: &'a tombi_document_tree::Table,
     accessors: &'a [tombi_schema_store::Accessor],
@@ -1312,7 +1333,7 @@ fn collect_evaluated_properties_from_schema_view<'a>(
     async move {
         match schema_view {
             SchemaView::Table(table_schema) => {
-                collect_evaluated_properties_from_table_schema(
+                let mut result = collect_evaluated_properties_from_table_schema(
                     table_value,
                     accessors,
                     table_schema,
@@ -1320,7 +1341,9 @@ fn collect_evaluated_properties_from_schema_view<'a>(
                     schema_context,
                     visited_schema_values,
                 )
-                .await
+                .await;
+                mark_properties_of_unevaluated_schema(&mut result, table_value, table_schema);
+                result
             }
             SchemaView::OneOf(one_of_schema) => {
                 collect_evaluated_properties_from_referable_schemas(
-- 
2.43.0


From dd4a4b6282907277cbdc26dc99727cc6d67af226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 43/97] fix: references to anchors, to other references and in
 circles are resolved or rejected, without overflowing the stack

---
 .../src/schema/document_schema.rs             |  2 +
 .../src/schema/referable_schema.rs            | 70 +++++++++++++++++++
 crates/tombi-schema-store/src/store.rs        | 25 ++++++-
 3 files changed, 95 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/document_schema.rs b/crates/tombi-schema-store/src/schema/document_schema.rs
index 6bc477c..4e28406 100644
--- a/crates/tombi-schema-store/src/schema/document_schema.rs
+++ b/crates/tombi-schema-store/src/schema/document_schema.rs
@@ -210,6 +210,8 @@ impl DocumentSchema {
         // value schema (e.g. schemas whose root is only `{ "$ref": "#/definitions/..." }`).
         // `definitions` / `base_uri` are borrowed only until the resolved value is built.
         if let Some(mut root_ref) = root_ref {
+            let schema_store =
+                &schema_store.with_unresolved_document(Arc::new(document_schema.clone()));
             document_schema.schema_view = match root_ref
                 .resolve(
                     Cow::Owned(document_schema.base_uri().clone()),
diff --git a/crates/tombi-schema-store/src/schema/referable_schema.rs b/crates/tombi-schema-store/src/schema/referable_schema.rs
index 042c6fc..dd0b7be 100644
--- a/crates/tombi-schema-store/src/schema/referable_schema.rs
+++ b/crates/tombi-schema-store/src/schema/referable_schema.rs
@@ -308,6 +308,7 @@ impl Referable<SchemaView> {
             strict,
             schema_store,
             dynamic_scope,
+            Vec::new(),
         )
     }
 
@@ -318,6 +319,7 @@ impl Referable<SchemaView> {
         strict: Option<BoolDefaultTrue>,
         schema_store: &'a crate::SchemaStore,
         dynamic_scope: Vec<SchemaUri>,
+        mut visited_references: Vec<(SchemaUri, String)>,
     ) -> tombi_future::BoxFuture<'b, Result<Option<CurrentSchema<'a>>, crate::Error>> {
         Box::pin(async move {
             match self {
@@ -331,6 +333,15 @@ impl Referable<SchemaView> {
                     examples,
                     deprecation,
                 } => {
+                    let visiting = (schema_uri.as_ref().clone(), reference.clone());
+                    if visited_references.contains(&visiting) {
+                        return Err(crate::Error::InvalidJsonSchemaReference {
+                            reference: reference.to_owned(),
+                            schema_uri: schema_uri.as_ref().to_owned(),
+                        });
+                    }
+                    visited_references.push(visiting);
+
                     let dynamic_target = match kind {
                         ReferenceKind::DynamicRef => parse_dynamic_anchor_reference(reference),
                         ReferenceKind::RecursiveRef => parse_recursive_anchor_reference(reference),
@@ -366,6 +377,7 @@ impl Referable<SchemaView> {
                                     strict,
                                     schema_store,
                                     scope_for_dynamic_ref,
+                                    visited_references,
                                 )
                                 .await;
                         }
@@ -406,6 +418,33 @@ impl Referable<SchemaView> {
                                 .and_then(|dialect_uri| {
                                     crate::JsonSchemaDialect::try_from(dialect_uri).ok()
                                 });
+                            if let Some(mut referable_schema) =
+                                reference_at_json_pointer(&schema_value, pointer, dialect)
+                            {
+                                apply_ref_semantics(
+                                    &mut referable_schema,
+                                    ref_semantic_schema.clone(),
+                                );
+                                apply_ref_annotations(
+                                    &mut referable_schema,
+                                    title.as_ref(),
+                                    description.as_ref(),
+                                    default.as_ref(),
+                                    examples.as_ref(),
+                                    deprecation.clone(),
+                                );
+                                *self = referable_schema;
+                                return self
+                                    .resolve_with_dynamic_scope(
+                                        schema_uri,
+                                        definitions,
+                                        strict,
+                                        schema_store,
+                                        dynamic_scope,
+                                        visited_references,
+                                    )
+                                    .await;
+                            }
                             if let Some(mut resolved_schema) =
                                 resolve_json_pointer(&schema_value, pointer, None, dialect)?
                             {
@@ -459,6 +498,7 @@ impl Referable<SchemaView> {
                         schema_uri.as_ref(),
                         strict,
                         schema_store,
+                        visited_references.clone(),
                     )
                     .await?
                     {
@@ -499,6 +539,7 @@ impl Referable<SchemaView> {
                                 resolved_reference.strict,
                                 schema_store,
                                 dynamic_scope,
+                                visited_references,
                             )
                             .await;
                     } else {
@@ -514,6 +555,7 @@ impl Referable<SchemaView> {
                         strict,
                         schema_store,
                         dynamic_scope,
+                        visited_references,
                     )
                     .await
                 }
@@ -742,6 +784,7 @@ async fn resolve_external_reference(
     base_schema_uri: &SchemaUri,
     strict: Option<BoolDefaultTrue>,
     schema_store: &crate::SchemaStore,
+    visited_references: Vec<(SchemaUri, String)>,
 ) -> Result<Option<CurrentSchema<'static>>, crate::Error> {
     let joined = if let Ok(url) = base_schema_uri.join(reference) {
         Some(SchemaUri::from(url))
@@ -812,6 +855,21 @@ async fn resolve_external_reference(
                 .and_then(|object| object.get("$schema"))
                 .and_then(|value| value.as_str())
                 .and_then(|dialect_uri| crate::JsonSchemaDialect::try_from(dialect_uri).ok());
+            if let Some(mut referable) =
+                reference_at_json_pointer(&schema_value, &reference_with_fragment, dialect)
+            {
+                return referable
+                    .resolve_with_dynamic_scope(
+                        Cow::Owned(document_base_uri(&document_schema)),
+                        Cow::Owned(document_schema.definitions.clone()),
+                        strict,
+                        schema_store,
+                        Vec::new(),
+                        visited_references,
+                    )
+                    .await
+                    .map(|result| result.map(CurrentSchema::into_owned));
+            }
             if let Some(schema_view) =
                 resolve_json_pointer(&schema_value, &reference_with_fragment, None, dialect)?
             {
@@ -1143,6 +1201,18 @@ pub fn resolve_json_pointer(
     }
 }
 
+/// The `$ref` a JSON pointer leads to, which has to be resolved in turn.
+fn reference_at_json_pointer(
+    schema_node: &tombi_json::ValueNode,
+    pointer: &str,
+    dialect: Option<crate::JsonSchemaDialect>,
+) -> Option<Referable<SchemaView>> {
+    resolve_json_pointer_node(schema_node, pointer)?
+        .as_object()
+        .and_then(|object| Referable::<SchemaView>::new(object, None, dialect, None, None))
+        .filter(|referable| matches!(referable, Referable::Ref { .. }))
+}
+
 fn resolve_json_pointer_node<'a>(
     schema_node: &'a tombi_json::ValueNode,
     pointer: &str,
diff --git a/crates/tombi-schema-store/src/store.rs b/crates/tombi-schema-store/src/store.rs
index 4f78d14..e0784f7 100644
--- a/crates/tombi-schema-store/src/store.rs
+++ b/crates/tombi-schema-store/src/store.rs
@@ -47,6 +47,8 @@ pub struct SchemaStore {
     schemas: Arc<RwLock<Vec<crate::Schema>>>,
     options: crate::Options,
     base_dir_path: Arc<RwLock<Option<std::path::PathBuf>>>,
+    /// Documents whose root `$ref` is being resolved with this store.
+    unresolved_documents: Vec<Arc<DocumentSchema>>,
 }
 
 impl Default for SchemaStore {
@@ -87,9 +89,18 @@ impl SchemaStore {
             schemas: Arc::new(RwLock::new(Vec::new())),
             options,
             base_dir_path: Arc::new(RwLock::new(None)),
+            unresolved_documents: Vec::new(),
         }
     }
 
+    /// The same store, where references to the given document find it as it is
+    /// instead of loading it again.
+    pub(crate) fn with_unresolved_document(&self, document_schema: Arc<DocumentSchema>) -> Self {
+        let mut store = self.clone();
+        store.unresolved_documents.push(document_schema);
+        store
+    }
+
     /// Offline mode
     pub fn offline(&self) -> bool {
         self.options.offline.unwrap_or_default()
@@ -551,6 +562,7 @@ impl SchemaStore {
         ) = document_schema.schema_view.as_deref()
         {
             let document_base_uri = document_schema.base_uri().clone();
+            let schema_store = self.with_unresolved_document(Arc::new(document_schema.clone()));
             {
                 for referable_schema in schemas.write().await.iter_mut() {
                     referable_schema
@@ -558,7 +570,7 @@ impl SchemaStore {
                             Cow::Borrowed(&document_base_uri),
                             Cow::Borrowed(&document_schema.definitions),
                             None,
-                            self,
+                            &schema_store,
                         )
                         .await?;
                 }
@@ -582,9 +594,18 @@ impl SchemaStore {
                 (uri, fragment)
             };
 
+            let unresolved_document = self
+                .unresolved_documents
+                .iter()
+                .find(|document| {
+                    document.schema_uri == schema_uri || document.base_uri() == &schema_uri
+                })
+                .cloned();
             let cached_document_schema =
                 self.document_schemas.read().await.get(&schema_uri).cloned();
-            let document_schema = if let Some(cached_document_schema) = cached_document_schema {
+            let document_schema = if unresolved_document.is_some() {
+                unresolved_document
+            } else if let Some(cached_document_schema) = cached_document_schema {
                 let cache_version = schema_cache_version(&schema_uri).await;
                 if cached_document_schema.version == cache_version {
                     match cached_document_schema.document_schema {
-- 
2.43.0


From b258627091a3e065af0d2725c0745be5ab453288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:23 +0000
Subject: [PATCH 44/97] fix: sibling oneOf, anyOf and allOf of an untyped
 schema all apply

---
 .../src/schema/referable_schema.rs            | 42 +++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/crates/tombi-schema-store/src/schema/referable_schema.rs b/crates/tombi-schema-store/src/schema/referable_schema.rs
index dd0b7be..0f71390 100644
--- a/crates/tombi-schema-store/src/schema/referable_schema.rs
+++ b/crates/tombi-schema-store/src/schema/referable_schema.rs
@@ -200,6 +200,48 @@ impl Referable<SchemaView> {
                         dynamic_anchor_collector.as_deref_mut(),
                     )
                 })
+            } else if ["oneOf", "anyOf", "allOf"]
+                .iter()
+                .filter(|keyword| object.get(keyword).is_some())
+                .count()
+                > 1
+            {
+                // Sibling applicators all apply: `allOf` of each of them.
+                let (one_of, any_of, all_of, _) = super::adjacent_applicators(
+                    object,
+                    string_formats,
+                    dialect,
+                    anchor_collector.as_deref_mut(),
+                    dynamic_anchor_collector.as_deref_mut(),
+                );
+                let mut all_of_schema = all_of.map_or_else(
+                    || {
+                        super::AllOfSchema::new(
+                            object,
+                            string_formats,
+                            dialect,
+                            anchor_collector.as_deref_mut(),
+                            dynamic_anchor_collector.as_deref_mut(),
+                        )
+                    },
+                    |all_of| *all_of,
+                );
+                if let Some(schemas) = Arc::get_mut(&mut all_of_schema.schemas) {
+                    schemas.get_mut().extend(
+                        [
+                            one_of.map(|one_of| SchemaView::OneOf(*one_of)),
+                            any_of.map(|any_of| SchemaView::AnyOf(*any_of)),
+                        ]
+                        .into_iter()
+                        .flatten()
+                        .map(|schema_view| Referable::Resolved {
+                            schema_uri: None,
+                            value: Arc::new(schema_view),
+                            semantic_schema: None,
+                        }),
+                    );
+                }
+                Some(SchemaView::AllOf(all_of_schema))
             } else if object.get("oneOf").is_some() {
                 Some(SchemaView::OneOf(super::OneOfSchema::new(
                     object,
-- 
2.43.0


From 5527e30b74f47b044475e70031686daabb4c21fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:23 +0000
Subject: [PATCH 45/97] fix: a $ref to a schema without a plain type is
 validated like that schema

---
 .../src/schema/referable_schema.rs            |  1 +
 .../src/schema/semantic_schema.rs             | 32 ++++++++++++++++++-
 crates/tombi-validator/src/validate.rs        | 15 +++++++++
 3 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-schema-store/src/schema/referable_schema.rs b/crates/tombi-schema-store/src/schema/referable_schema.rs
index 0f71390..713f3c2 100644
--- a/crates/tombi-schema-store/src/schema/referable_schema.rs
+++ b/crates/tombi-schema-store/src/schema/referable_schema.rs
@@ -744,6 +744,7 @@ fn combine_ref_semantics(
     target: Option<Arc<super::SemanticSchema>>,
 ) -> Option<Arc<super::SemanticSchema>> {
     match (local, target) {
+        (Some(local), Some(target)) if !local.has_own_keywords() => Some(target),
         (Some(local), Some(target)) => Some(Arc::new(super::SemanticSchema::composite(
             super::SemanticCompositeKind::AllOf,
             vec![local.as_ref().clone(), target.as_ref().clone()],
diff --git a/crates/tombi-schema-store/src/schema/semantic_schema.rs b/crates/tombi-schema-store/src/schema/semantic_schema.rs
index c45333f..c6d725d 100644
--- a/crates/tombi-schema-store/src/schema/semantic_schema.rs
+++ b/crates/tombi-schema-store/src/schema/semantic_schema.rs
@@ -145,7 +145,20 @@ impl SemanticSchema {
     /// constrain every instance and therefore safely determine presentation
     /// types even when `type` is absent.
     pub fn has_direct_literal_assertion(&self) -> bool {
-        matches!(self, Self::Object(object) if object.assertions.const_value.is_some() || object.assertions.enum_values.is_some())
+        match self {
+            Self::Object(object) => {
+                object.assertions.const_value.is_some() || object.assertions.enum_values.is_some()
+            }
+            // The composite of a `$ref` and the keywords beside it.
+            Self::Composite(composite) => {
+                composite.kind == SemanticCompositeKind::AllOf
+                    && composite
+                        .schemas
+                        .iter()
+                        .any(Self::has_direct_literal_assertion)
+            }
+            Self::Boolean(_) => false,
+        }
     }
 
     /// Returns whether an instance type is admitted by the schema's explicit
@@ -371,7 +384,9 @@ impl SemanticSchema {
             SchemaType::Array,
             SchemaType::Object,
         ] {
+            // The view of the numbers has the integers, too.
             if instance_type == SchemaType::Integer
+                && self.accepts_instance_type(SchemaType::Number)
                 && matches!(self, Self::Object(object) if object.type_assertion.as_ref().is_some_and(|assertion| {
                     assertion.allowed.iter().any(|allowed| allowed.value == SchemaType::Number)
                         && !assertion.allowed.iter().any(|allowed| allowed.value == SchemaType::Integer)
@@ -453,6 +468,21 @@ impl SemanticSchema {
         }
     }
 
+    /// Returns whether this schema object has keywords of its own, without
+    /// following its references: assertions, applicators or annotations.
+    pub fn has_own_keywords(&self) -> bool {
+        match self {
+            Self::Object(object) => {
+                object.type_assertion.is_some()
+                    || object.assertions != GenericAssertions::default()
+                    || object.constraints != TypeConstraints::default()
+                    || object.applicators != SemanticApplicators::default()
+                    || object.annotations != SemanticAnnotations::default()
+            }
+            Self::Boolean(_) | Self::Composite(_) => true,
+        }
+    }
+
     pub fn has_references(&self) -> bool {
         match self {
             Self::Boolean(_) => false,
diff --git a/crates/tombi-validator/src/validate.rs b/crates/tombi-validator/src/validate.rs
index 1f81a14..0703fc8 100644
--- a/crates/tombi-validator/src/validate.rs
+++ b/crates/tombi-validator/src/validate.rs
@@ -726,6 +726,21 @@ where
             .schema_visits
             .get_schema_view_cycle_guard(&resolved_schema.schema_view)?;
 
+        if matches!(
+            resolved_schema.schema_view.as_ref(),
+            tombi_schema_store::SchemaView::OneOf(_)
+                | tombi_schema_store::SchemaView::AnyOf(_)
+                | tombi_schema_store::SchemaView::AllOf(_)
+        ) && let Some(projected_schema) =
+            project_current_schema_for_value(value, Some(resolved_schema), schema_context)
+        {
+            return Some(
+                value
+                    .validate(accessors, Some(&projected_schema), schema_context)
+                    .await,
+            );
+        }
+
         match (value.value_type(), resolved_schema.schema_view.as_ref()) {
             (
                 tombi_document_tree::ValueType::Boolean,
-- 
2.43.0


From c6f9fcaf7aac9a950797b9febd57cd810c1f8581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 46/97] fix: tables-out-of-order compares decoded table keys,
 not their spelling

---
 .../src/rule/tables_out_of_order.rs           | 32 +++++--------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/crates/tombi-linter/src/rule/tables_out_of_order.rs b/crates/tombi-linter/src/rule/tables_out_of_order.rs
index 8d260d1..c1c7d1d 100644
--- a/crates/tombi-linter/src/rule/tables_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/tables_out_of_order.rs
@@ -1,7 +1,7 @@
 use tombi_ast::AstNode;
 use tombi_comment_directive::value::{RootTableCommonLintRules, TableCommonFormatRules};
 use tombi_comment_directive_serde::get_comment_directive_content;
-use tombi_config::SeverityLevel;
+use tombi_config::{SeverityLevel, TomlVersion};
 use tombi_severity_level::SeverityLevelDefaultWarn;
 
 use crate::Rule;
@@ -45,15 +45,15 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
             return;
         }
 
-        let source_text = l.source_text();
-        let mut table_positions: Vec<(usize, Vec<&str>, tombi_text::Range)> = Vec::new();
+        let toml_version = l.toml_version();
+        let mut table_positions: Vec<(usize, Vec<String>, tombi_text::Range)> = Vec::new();
 
         // Collect all table definitions
         for (position, item) in node.items().enumerate() {
             match item {
                 tombi_ast::RootItem::Table(table) => {
                     if let Some(header) = table.header() {
-                        let key_parts = extract_key_parts(&header, source_text);
+                        let key_parts = extract_key_parts(&header, toml_version);
                         if !key_parts.is_empty() {
                             table_positions.push((position, key_parts, table.syntax().range()));
                         }
@@ -61,7 +61,7 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
                 }
                 tombi_ast::RootItem::ArrayOfTable(array_table) => {
                     if let Some(header) = array_table.header() {
-                        let key_parts = extract_key_parts(&header, source_text);
+                        let key_parts = extract_key_parts(&header, toml_version);
                         if !key_parts.is_empty() {
                             table_positions.push((
                                 position,
@@ -84,7 +84,7 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
         for (pos, keys, range) in &table_positions {
             if !keys.is_empty() {
                 prefix_groups
-                    .entry(keys[0])
+                    .entry(keys[0].as_str())
                     .or_default()
                     .push((*pos, *range));
             }
@@ -121,25 +121,9 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
     }
 }
 
-fn extract_key_parts<'a>(keys: &tombi_ast::Keys, source_text: &'a str) -> Vec<&'a str> {
+fn extract_key_parts(keys: &tombi_ast::Keys, toml_version: TomlVersion) -> Vec<String> {
     keys.keys()
-        .map(|key| match key {
-            tombi_ast::Key::BareKey(k) => &source_text[k.syntax().span()],
-            tombi_ast::Key::BasicString(k) => {
-                let mut span = k.syntax().span();
-                // Remove quotes
-                span.start += 1;
-                span.end -= 1;
-                &source_text[span]
-            }
-            tombi_ast::Key::LiteralString(k) => {
-                let mut span = k.syntax().span();
-                // Remove quotes
-                span.start += 1;
-                span.end -= 1;
-                &source_text[span]
-            }
-        })
+        .map_while(|key| key.try_to_raw_text(toml_version).ok())
         .collect()
 }
 
-- 
2.43.0


From e508d4f88f414c1624f7ef897d3175152f72f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:32 +0000
Subject: [PATCH 47/97] fix: a directive on a key-value disables
 dotted-keys-out-of-order in its inline table

---
 .../tombi-linter/src/rule/dotted_keys_out_of_order.rs  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
index 2a357a5..ed1a7ea 100644
--- a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
@@ -1,4 +1,5 @@
 use crate::Rule;
+use tombi_ast::AstNode;
 use tombi_comment_directive::value::{TableCommonFormatRules, TableCommonLintRules};
 use tombi_comment_directive_serde::get_comment_directive_content;
 use tombi_config::SeverityLevel;
@@ -26,7 +27,14 @@ impl Rule<tombi_ast::ArrayOfTable> for DottedKeysOutOfOrderRule {
 
 impl Rule<tombi_ast::InlineTable> for DottedKeysOutOfOrderRule {
     async fn check(table: &tombi_ast::InlineTable, l: &mut crate::Linter<'_>) {
-        check_dotted_keys_out_of_order(table.key_values(), table.comment_directives(), l).await;
+        // The directives of `key = { ... }` are written around the key-value.
+        let key_value = table.syntax().parent().and_then(tombi_ast::KeyValue::cast);
+        let comment_directives = key_value
+            .iter()
+            .flat_map(|key_value| key_value.comment_directives())
+            .chain(table.comment_directives());
+
+        check_dotted_keys_out_of_order(table.key_values(), comment_directives, l).await;
     }
 }
 
-- 
2.43.0


From 0f2f871593707aa25f59bc1699af234d02390291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:32 +0000
Subject: [PATCH 48/97] fix: order lint rules set to error do not hide the
 document's other diagnostics

---
 crates/tombi-linter/src/linter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tombi-linter/src/linter.rs b/crates/tombi-linter/src/linter.rs
index bda7b5d..831decd 100644
--- a/crates/tombi-linter/src/linter.rs
+++ b/crates/tombi-linter/src/linter.rs
@@ -102,6 +102,13 @@ impl<'a> Linter<'a> {
             .diagnostics
             .iter()
             .filter(|diagnostic| diagnostic.level() == tombi_diagnostic::Level::ERROR)
+            // Out-of-order keys do not make the document invalid, even when reported as errors.
+            .filter(|diagnostic| {
+                !matches!(
+                    diagnostic.code(),
+                    "dotted-keys-out-of-order" | "tables-out-of-order"
+                )
+            })
             .count()
             == 0
         {
-- 
2.43.0


From ae5f7cd42d5d5f5a91a6fb0d1441f9af39d1618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:42 +0000
Subject: [PATCH 49/97] fix: table-key-required.disabled is unused only when no
 required key is missing

---
 crates/tombi-validator/src/validate/table.rs | 30 +++++++++++---------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index a5a662f..9d9517f 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -535,10 +535,12 @@ async fn validate_table(
 
     let keys = table_value.keys().map(|key| &key.value).collect_vec();
 
+    let mut has_missing_required_key = false;
     if let Some(required) = &table_schema.required {
         for required_key in required {
             if !keys.contains(&required_key) {
                 assertion_failed = true;
+                has_missing_required_key = true;
                 let level = table_rules
                     .map(|rules| &rules.value)
                     .and_then(|rules| {
@@ -557,19 +559,6 @@ async fn validate_table(
                 }
                 .push_diagnostic_with_level(level, &mut total_diagnostics);
             } else {
-                if table_rules
-                    .map(|rules| &rules.value)
-                    .and_then(|rules| rules.table_key_required.as_ref())
-                    .and_then(|rules| rules.disabled)
-                    == Some(true)
-                {
-                    handle_unused_noqa(
-                        &mut total_diagnostics,
-                        table_value.comment_directives(),
-                        table_rules.as_ref().map(|rules| &rules.common),
-                        "table-key-required",
-                    );
-                }
                 let path = accessors
                     .iter()
                     .cloned()
@@ -580,6 +569,21 @@ async fn validate_table(
         }
     }
 
+    if !has_missing_required_key
+        && table_rules
+            .map(|rules| &rules.value)
+            .and_then(|rules| rules.table_key_required.as_ref())
+            .and_then(|rules| rules.disabled)
+            == Some(true)
+    {
+        handle_unused_noqa(
+            &mut total_diagnostics,
+            table_value.comment_directives(),
+            table_rules.as_ref().map(|rules| &rules.common),
+            "table-key-required",
+        );
+    }
+
     if let Some(max_properties) = table_schema.max_properties
         && table_value.keys().count() > max_properties
     {
-- 
2.43.0


From 2c43367b2f180a675566c0d326759c3006ef710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:04 +0000
Subject: [PATCH 50/97] fix: pattern properties keep the order of the schema

Which of several patterns a diagnostic lists first, hover shows or sorting
uses depended on the seed of a hash map.
---
 crates/tombi-schema-store/src/schema.rs              | 2 +-
 crates/tombi-schema-store/src/schema/table_schema.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema.rs b/crates/tombi-schema-store/src/schema.rs
index 188eb1a..bd16ff7 100644
--- a/crates/tombi-schema-store/src/schema.rs
+++ b/crates/tombi-schema-store/src/schema.rs
@@ -136,7 +136,7 @@ pub struct SchemaOverrides {
 pub type SchemaProperties =
     Arc<tokio::sync::RwLock<tombi_hashmap::IndexMap<SchemaAccessor, PropertySchema>>>;
 pub type SchemaPatternProperties =
-    Arc<tokio::sync::RwLock<tombi_hashmap::HashMap<String, PropertySchema>>>;
+    Arc<tokio::sync::RwLock<tombi_hashmap::IndexMap<String, PropertySchema>>>;
 pub type SchemaItem = Arc<tokio::sync::RwLock<Referable<SchemaView>>>;
 pub type SchemaMap = tombi_hashmap::HashMap<String, Referable<SchemaView>>;
 pub type SchemaDefinitions = Arc<tokio::sync::RwLock<SchemaMap>>;
diff --git a/crates/tombi-schema-store/src/schema/table_schema.rs b/crates/tombi-schema-store/src/schema/table_schema.rs
index 5ccedff..854b22f 100644
--- a/crates/tombi-schema-store/src/schema/table_schema.rs
+++ b/crates/tombi-schema-store/src/schema/table_schema.rs
@@ -96,7 +96,7 @@ impl TableSchema {
         }
         let pattern_properties = match object_node.get("patternProperties") {
             Some(tombi_json::ValueNode::Object(object_node)) => {
-                let mut pattern_properties = tombi_hashmap::HashMap::new();
+                let mut pattern_properties = tombi_hashmap::IndexMap::new();
                 for (pattern, value) in object_node.properties.iter() {
                     if let Some(schema_view) = referable_from_schema_value(
                         value,
@@ -202,7 +202,7 @@ impl TableSchema {
                                 },
                             )
                         })
-                        .collect::<tombi_hashmap::HashMap<_, _>>()
+                        .collect::<tombi_hashmap::IndexMap<_, _>>()
                         .into(),
                 )
             }),
-- 
2.43.0


From d0c6b050f6232f7dfe9eaba709fc7712ad99fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:11 +0000
Subject: [PATCH 51/97] fix: the TOML version of a schema that #:schema
 replaces does not apply

---
 crates/tombi-schema-store/src/schema/source_schema.rs | 5 +++++
 crates/tombi-schema-store/src/store.rs                | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-schema-store/src/schema/source_schema.rs b/crates/tombi-schema-store/src/schema/source_schema.rs
index 3e7382b..2005367 100644
--- a/crates/tombi-schema-store/src/schema/source_schema.rs
+++ b/crates/tombi-schema-store/src/schema/source_schema.rs
@@ -54,6 +54,11 @@ impl SourceSchema {
         }
     }
 
+    /// Returns the TOML version of the `[[schemas]]` config entry, if any.
+    pub(crate) fn config_toml_version(&self) -> Option<TomlVersion> {
+        self.toml_version
+    }
+
     /// Returns the resolved TOML version for this source.
     ///
     /// Priority: `[[schemas]]` config `toml-version` > JSON Schema `x-tombi-toml-version`.
diff --git a/crates/tombi-schema-store/src/store.rs b/crates/tombi-schema-store/src/store.rs
index e0784f7..d8e6e67 100644
--- a/crates/tombi-schema-store/src/store.rs
+++ b/crates/tombi-schema-store/src/store.rs
@@ -744,7 +744,8 @@ impl SchemaStore {
             schema_overrides,
             strict,
         ) = if let Some(source_schema) = source_schema {
-            let toml_version = source_schema.toml_version();
+            // The schema that the directive replaces does not determine the version.
+            let toml_version = source_schema.config_toml_version();
             let strict = source_schema
                 .root_schema
                 .as_ref()
-- 
2.43.0


From 371e3009d5207129b82c137ceacff4b3ff25e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:23 +0000
Subject: [PATCH 52/97] fix: what oneOf stands beside fails also if the
 matching branch only warns

---
 crates/tombi-validator/src/validate/one_of.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tombi-validator/src/validate/one_of.rs b/crates/tombi-validator/src/validate/one_of.rs
index e3cb4d3..0cfcbf9 100644
--- a/crates/tombi-validator/src/validate/one_of.rs
+++ b/crates/tombi-validator/src/validate/one_of.rs
@@ -161,6 +161,7 @@ where
                         });
                     }
                     Err(mut error) if !error.assertion_failed => {
+                        error.assertion_failed |= adjacent_assertion_failed;
                         error.prepend_diagnostics(total_diagnostics);
                         error
                             .local_evaluated_locations
-- 
2.43.0


From 1b911599ff8b7338a3649355896b7b7e52266843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:50 +0000
Subject: [PATCH 53/97] fix: rules of a matching override win over the base
 rules

---
 crates/tombi-config/src/format.rs | 65 ++++++++++++++++---------------
 crates/tombi-config/src/lint.rs   | 11 +++---
 2 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/crates/tombi-config/src/format.rs b/crates/tombi-config/src/format.rs
index e054e26..4874b8d 100644
--- a/crates/tombi-config/src/format.rs
+++ b/crates/tombi-config/src/format.rs
@@ -303,52 +303,53 @@ pub struct FormatRules {
 }
 
 impl FormatRules {
+    /// Lays the rules that `override_rules` sets over these.
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            array_bracket_space_width: self
+            array_bracket_space_width: override_rules
                 .array_bracket_space_width
-                .or(override_rules.array_bracket_space_width),
-            array_comma_space_width: self
+                .or(self.array_bracket_space_width),
+            array_comma_space_width: override_rules
                 .array_comma_space_width
-                .or(override_rules.array_comma_space_width),
-            comment_style: self.comment_style.or(override_rules.comment_style),
-            date_time_delimiter: self
+                .or(self.array_comma_space_width),
+            comment_style: override_rules.comment_style.or(self.comment_style),
+            date_time_delimiter: override_rules
                 .date_time_delimiter
-                .or(override_rules.date_time_delimiter),
-            group_blank_lines_limit: self
+                .or(self.date_time_delimiter),
+            group_blank_lines_limit: override_rules
                 .group_blank_lines_limit
-                .or(override_rules.group_blank_lines_limit),
-            indent_style: self.indent_style.or(override_rules.indent_style),
-            indent_sub_tables: self.indent_sub_tables.or(override_rules.indent_sub_tables),
-            indent_table_key_value_pairs: self
+                .or(self.group_blank_lines_limit),
+            indent_style: override_rules.indent_style.or(self.indent_style),
+            indent_sub_tables: override_rules.indent_sub_tables.or(self.indent_sub_tables),
+            indent_table_key_value_pairs: override_rules
                 .indent_table_key_value_pairs
-                .or(override_rules.indent_table_key_value_pairs),
-            indent_width: self.indent_width.or(override_rules.indent_width),
-            inline_table_brace_space_width: self
+                .or(self.indent_table_key_value_pairs),
+            indent_width: override_rules.indent_width.or(self.indent_width),
+            inline_table_brace_space_width: override_rules
                 .inline_table_brace_space_width
-                .or(override_rules.inline_table_brace_space_width),
-            inline_table_comma_space_width: self
+                .or(self.inline_table_brace_space_width),
+            inline_table_comma_space_width: override_rules
                 .inline_table_comma_space_width
-                .or(override_rules.inline_table_comma_space_width),
-            key_value_equals_sign_alignment: self
+                .or(self.inline_table_comma_space_width),
+            key_value_equals_sign_alignment: override_rules
                 .key_value_equals_sign_alignment
-                .or(override_rules.key_value_equals_sign_alignment),
-            key_quote_style: self.key_quote_style.or(override_rules.key_quote_style),
-            string_quote_style: self
+                .or(self.key_value_equals_sign_alignment),
+            key_quote_style: override_rules.key_quote_style.or(self.key_quote_style),
+            string_quote_style: override_rules
                 .string_quote_style
-                .or(override_rules.string_quote_style),
-            trailing_comment_alignment: self
+                .or(self.string_quote_style),
+            trailing_comment_alignment: override_rules
                 .trailing_comment_alignment
-                .or(override_rules.trailing_comment_alignment),
-            key_value_equals_sign_space_width: self
+                .or(self.trailing_comment_alignment),
+            key_value_equals_sign_space_width: override_rules
                 .key_value_equals_sign_space_width
-                .or(override_rules.key_value_equals_sign_space_width),
-            line_ending: self.line_ending.or(override_rules.line_ending),
-            line_width: self.line_width.or(override_rules.line_width),
-            table_blank_lines: self.table_blank_lines.or(override_rules.table_blank_lines),
-            trailing_comment_space_width: self
+                .or(self.key_value_equals_sign_space_width),
+            line_ending: override_rules.line_ending.or(self.line_ending),
+            line_width: override_rules.line_width.or(self.line_width),
+            table_blank_lines: override_rules.table_blank_lines.or(self.table_blank_lines),
+            trailing_comment_space_width: override_rules
                 .trailing_comment_space_width
-                .or(override_rules.trailing_comment_space_width),
+                .or(self.trailing_comment_space_width),
         }
     }
 }
diff --git a/crates/tombi-config/src/lint.rs b/crates/tombi-config/src/lint.rs
index 447d22c..12178d2 100644
--- a/crates/tombi-config/src/lint.rs
+++ b/crates/tombi-config/src/lint.rs
@@ -73,15 +73,16 @@ pub struct LintRules {
 }
 
 impl LintRules {
+    /// Lays the rules that `override_rules` sets over these.
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            key_empty: self.key_empty.or(override_rules.key_empty),
-            dotted_keys_out_of_order: self
+            key_empty: override_rules.key_empty.or(self.key_empty),
+            dotted_keys_out_of_order: override_rules
                 .dotted_keys_out_of_order
-                .or(override_rules.dotted_keys_out_of_order),
-            tables_out_of_order: self
+                .or(self.dotted_keys_out_of_order),
+            tables_out_of_order: override_rules
                 .tables_out_of_order
-                .or(override_rules.tables_out_of_order),
+                .or(self.tables_out_of_order),
         }
     }
 }
-- 
2.43.0


From f378069a6104f43c11d0c4bccdb4029522343b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:50 +0000
Subject: [PATCH 54/97] fix: a broken user or system config does not panic

---
 rust/serde_tombi/src/config.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/rust/serde_tombi/src/config.rs b/rust/serde_tombi/src/config.rs
index 29bf56d..2928ced 100644
--- a/rust/serde_tombi/src/config.rs
+++ b/rust/serde_tombi/src/config.rs
@@ -176,13 +176,8 @@ pub fn load_with_path_and_level(
     if let Some((user_config_path, config_level)) = get_user_or_system_tombi_config_path_and_level()
     {
         log::debug!("{CONFIG_TOML_FILENAME} found at {:?}", user_config_path);
-        match try_from_path(&user_config_path).ok().flatten() {
-            Some(config) => {
-                return Ok((config, Some(user_config_path), config_level));
-            }
-            None => {
-                unreachable!("{CONFIG_TOML_FILENAME} should always be parsed successfully.");
-            }
+        if let Some(config) = try_from_path(&user_config_path).ok().flatten() {
+            return Ok((config, Some(user_config_path), config_level));
         }
     }
 
-- 
2.43.0


From c86653420f6b9a5a3d5496cf3b5c6aa1fc5333d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:55 +0000
Subject: [PATCH 55/97] fix: a position beyond the document does not crash the
 language server

---
 .../tombi-text/src/features/lsp/from_lsp.rs   | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/crates/tombi-text/src/features/lsp/from_lsp.rs b/crates/tombi-text/src/features/lsp/from_lsp.rs
index ef99746..738c8cc 100644
--- a/crates/tombi-text/src/features/lsp/from_lsp.rs
+++ b/crates/tombi-text/src/features/lsp/from_lsp.rs
@@ -11,16 +11,23 @@ impl FromLsp<tower_lsp::lsp_types::Position> for crate::Position {
         source: tower_lsp::lsp_types::Position,
         line_index: &crate::LineIndex,
     ) -> crate::Position {
-        let column = line_index
-            .line_text(source.line)
-            .map(|line_text| {
-                let column_text =
-                    take_column_text(line_text, source.character, line_index.encoding_kind);
-                EncodingKind::GraphemeCluster.measure(column_text)
-            })
-            .unwrap_or_default();
-
-        crate::Position::new(source.line, column)
+        let Some(line_text) = line_index.line_text(source.line) else {
+            // A position beyond the last line means the end of the text.
+            let last_line = line_index.len().saturating_sub(1) as crate::Line;
+            let column = line_index
+                .line_text(last_line)
+                .map(|line_text| EncodingKind::GraphemeCluster.measure(line_text))
+                .unwrap_or_default();
+
+            return crate::Position::new(last_line, column);
+        };
+
+        let column_text = take_column_text(line_text, source.character, line_index.encoding_kind);
+
+        crate::Position::new(
+            source.line,
+            EncodingKind::GraphemeCluster.measure(column_text),
+        )
     }
 }
 
-- 
2.43.0


From 62aca9b9fc313183ff8f3079b06876e9bd9f2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 56/97] fix: completion before a trailing dot or equal sign has
 no inverted ranges

---
 crates/tombi-lsp/src/completion.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/completion.rs b/crates/tombi-lsp/src/completion.rs
index 1ae7d25..6167333 100644
--- a/crates/tombi-lsp/src/completion.rs
+++ b/crates/tombi-lsp/src/completion.rs
@@ -102,6 +102,7 @@ pub fn extract_keys_and_hint(
         let ast_keys = if tombi_ast::Keys::cast(node.to_owned()).is_some() {
             if let Some(SyntaxElement::Token(last_token)) = node.last_child_or_token()
                 && last_token.kind() == SyntaxKind::DOT
+                && last_token.range().start <= position
             {
                 completion_hint = Some(CompletionHint::DotTrigger {
                     range: last_token.range(),
@@ -119,7 +120,7 @@ pub fn extract_keys_and_hint(
             }
             match (kv.eq(), kv.value()) {
                 (Some(_), Some(_)) => {}
-                (Some(eq), None) => {
+                (Some(eq), None) if kv_keys.range().end <= position => {
                     completion_hint = Some(CompletionHint::EqualTrigger {
                         range: eq.range(),
                         cleanup_range: tombi_text::Range {
@@ -137,6 +138,7 @@ pub fn extract_keys_and_hint(
                             _ => false,
                         })
                         .last()
+                        && last_dot.range().start <= position
                     {
                         completion_hint = Some(CompletionHint::DotTrigger {
                             range: last_dot.range(),
-- 
2.43.0


From 21dfe36104bcf3fb69608f26bef4b482767bc2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 57/97] fix: no panic on a value whose closing bracket is
 missing

---
 crates/tombi-ast/src/impls/value.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-ast/src/impls/value.rs b/crates/tombi-ast/src/impls/value.rs
index 635e812..a4e28fd 100644
--- a/crates/tombi-ast/src/impls/value.rs
+++ b/crates/tombi-ast/src/impls/value.rs
@@ -37,10 +37,16 @@ impl crate::Value {
             Self::LocalDate(date) => date.token().unwrap().range(),
             Self::LocalTime(time) => time.token().unwrap().range(),
             Self::Array(array) => {
-                array.bracket_start().unwrap().range() + array.bracket_end().unwrap().range()
+                array.bracket_start().unwrap().range()
+                    + array
+                        .bracket_end()
+                        .map_or_else(|| array.range(), |bracket_end| bracket_end.range())
             }
             Self::InlineTable(table) => {
-                table.brace_start().unwrap().range() + table.brace_end().unwrap().range()
+                table.brace_start().unwrap().range()
+                    + table
+                        .brace_end()
+                        .map_or_else(|| table.range(), |brace_end| brace_end.range())
             }
         }
     }
-- 
2.43.0


From 8ed6ecdb6d8a21b69824ec118758b0827397dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 58/97] fix: converting between dotted keys and inline tables
 keeps the data

---
 crates/tombi-lsp/src/code_action.rs | 114 +++++++++++++++++++---------
 crates/tombi-lsp/src/completion.rs  |   8 ++
 2 files changed, 86 insertions(+), 36 deletions(-)

diff --git a/crates/tombi-lsp/src/code_action.rs b/crates/tombi-lsp/src/code_action.rs
index bde91f3..7671be9 100644
--- a/crates/tombi-lsp/src/code_action.rs
+++ b/crates/tombi-lsp/src/code_action.rs
@@ -1,3 +1,4 @@
+use itertools::Itertools;
 use tombi_ast::AstNode;
 use tombi_document_tree::{TableKind, dig_accessors};
 use tombi_schema_store::{Accessor, AccessorContext, AccessorKeyKind};
@@ -28,7 +29,7 @@ impl std::fmt::Display for CodeActionRefactorRewriteName {
 pub fn dot_keys_to_inline_table_code_action(
     text_document_uri: &tombi_uri::Uri,
     line_index: &tombi_text::LineIndex,
-    _root: &tombi_ast::Root,
+    root: &tombi_ast::Root,
     document_tree: &tombi_document_tree::DocumentTree,
     accessors: &[Accessor],
     contexts: &[AccessorContext],
@@ -44,15 +45,34 @@ pub fn dot_keys_to_inline_table_code_action(
     let (accessor, value) = dig_accessors(document_tree, &accessors[..accessors.len() - 1])?;
 
     match (accessor, value) {
-        (Accessor::Key(parent_key), tombi_document_tree::Value::Table(table))
-            if table.len() == 1
-                && matches!(
-                    parent_key_context.kind,
-                    AccessorKeyKind::Dotted | AccessorKeyKind::KeyValue
-                )
-                && !matches!(table.kind(), TableKind::InlineTable { .. }) =>
+        (Accessor::Key(_), tombi_document_tree::Value::Table(table))
+            if matches!(
+                parent_key_context.kind,
+                AccessorKeyKind::Dotted | AccessorKeyKind::KeyValue
+            ) && !matches!(table.kind(), TableKind::InlineTable { .. }) =>
         {
-            let (key, value) = table.key_values().iter().next().unwrap();
+            let (key_value, parent_index) =
+                get_ast_dotted_key_value(root, parent_key_context.range)?;
+            let keys = key_value.keys()?.keys().collect_vec();
+            let parent_key = keys.get(parent_index)?;
+            let child_key = keys.get(parent_index + 1)?;
+            let last_value_end = ast_value_end(&key_value.value()?)?;
+
+            // An inline table cannot be extended, so that the key value
+            // must be the only one that defines the table and its sub-tables.
+            let mut table = table;
+            for depth in parent_index + 1..keys.len() {
+                if table.len() != 1 {
+                    return None;
+                }
+                if depth + 1 < keys.len() {
+                    let Some(tombi_document_tree::Value::Table(sub_table)) = table.values().next()
+                    else {
+                        return None;
+                    };
+                    table = sub_table;
+                }
+            }
 
             Some(CodeAction {
                 title: CodeActionRefactorRewriteName::DottedKeysToInlineTable.to_string(),
@@ -66,25 +86,15 @@ pub fn dot_keys_to_inline_table_code_action(
                         },
                         edits: vec![
                             OneOf::Left(TextEdit {
-                                range: tombi_text::Range {
-                                    start: parent_key_context.range.start,
-                                    end: value.range().start,
-                                }
+                                range: tombi_text::Range::new(
+                                    parent_key.syntax().range().end,
+                                    child_key.syntax().range().start,
+                                )
                                 .into_lsp(line_index),
-                                new_text: format!(
-                                    "{} = {{ {}{}",
-                                    parent_key,
-                                    key.value,
-                                    if table.kind() == TableKind::KeyValue {
-                                        " = "
-                                    } else {
-                                        "."
-                                    }
-                                ),
+                                new_text: " = { ".to_string(),
                             }),
                             OneOf::Left(TextEdit {
-                                range: tombi_text::Range::at(value.symbol_range().end)
-                                    .into_lsp(line_index),
+                                range: tombi_text::Range::at(last_value_end).into_lsp(line_index),
                                 new_text: " }".to_string(),
                             }),
                         ],
@@ -122,10 +132,21 @@ pub fn inline_table_to_dot_keys_code_action(
                 && matches!(table.kind(), TableKind::InlineTable { has_comment: false }) =>
         {
             let node = get_ast_inline_table_node(root, table)?;
+            let (parent_key_value, parent_index) =
+                get_ast_dotted_key_value(root, parent_context.range)?;
+            if parent_key_value.keys()?.keys().count() != parent_index + 1
+                || parent_key_value.value()?.syntax() != node.syntax()
+            {
+                return None;
+            }
             if node.has_inner_comments() {
                 return None;
             }
-            let (key, value) = table.key_values().iter().next()?;
+            // Several key values may share the first key. e.g. `{ a.b = 1, a.c = 2 }`
+            let key_value = node.key_values().exactly_one().ok()?;
+            let key_start = key_value.keys()?.range().start;
+            let value_end = ast_value_end(&key_value.value()?)?;
+            let table_end = node.brace_end()?.range().end;
 
             Some(CodeAction {
                 title: CodeActionRefactorRewriteName::InlineTableToDottedKeys.to_string(),
@@ -139,19 +160,13 @@ pub fn inline_table_to_dot_keys_code_action(
                         },
                         edits: vec![
                             OneOf::Left(TextEdit {
-                                range: tombi_text::Range::new(
-                                    parent_context.range.end,
-                                    key.range().start,
-                                )
-                                .into_lsp(line_index),
+                                range: tombi_text::Range::new(parent_context.range.end, key_start)
+                                    .into_lsp(line_index),
                                 new_text: ".".to_string(),
                             }),
                             OneOf::Left(TextEdit {
-                                range: tombi_text::Range::new(
-                                    value.range().end,
-                                    table.symbol_range().end,
-                                )
-                                .into_lsp(line_index),
+                                range: tombi_text::Range::new(value_end, table_end)
+                                    .into_lsp(line_index),
                                 new_text: "".to_string(),
                             }),
                         ],
@@ -179,3 +194,30 @@ fn get_ast_inline_table_node(
     }
     None
 }
+
+/// Returns the key value that has the dotted key in the range, and the index of the key.
+fn get_ast_dotted_key_value(
+    root: &tombi_ast::Root,
+    key_range: tombi_text::Range,
+) -> Option<(tombi_ast::KeyValue, usize)> {
+    for node in root.syntax().descendants() {
+        if let Some(key_value) = tombi_ast::KeyValue::cast(node)
+            && let Some(index) = key_value.keys().and_then(|keys| {
+                keys.keys()
+                    .position(|key| key.token().is_some_and(|token| token.range() == key_range))
+            })
+        {
+            return Some((key_value, index));
+        }
+    }
+    None
+}
+
+/// Returns the end of the value, without its trailing comment.
+fn ast_value_end(value: &tombi_ast::Value) -> Option<tombi_text::Position> {
+    match value {
+        tombi_ast::Value::Array(array) => Some(array.bracket_end()?.range().end),
+        tombi_ast::Value::InlineTable(table) => Some(table.brace_end()?.range().end),
+        _ => Some(value.token_range().end),
+    }
+}
diff --git a/crates/tombi-lsp/src/completion.rs b/crates/tombi-lsp/src/completion.rs
index 6167333..38231c4 100644
--- a/crates/tombi-lsp/src/completion.rs
+++ b/crates/tombi-lsp/src/completion.rs
@@ -875,8 +875,16 @@ pub async fn get_completion_keys_with_context(
 ) -> Option<(Vec<tombi_document_tree::Key>, Vec<KeyContext>)> {
     let mut keys_vec = vec![];
     let mut key_contexts = vec![];
+    let mut child_span: Option<tombi_text::Span> = None;
 
     for node in ancestors_at_position(root.syntax(), position) {
+        // Between two tokens, the nodes on both sides are visited.
+        // Follow only one of them up to the root.
+        if child_span.is_some_and(|child_span| !node.span().contains_span(child_span)) {
+            continue;
+        }
+        child_span = Some(node.span());
+
         if let Some(kv) = tombi_ast::KeyValue::cast(node.to_owned()) {
             let keys = kv.keys()?;
             let keys = if keys.range().contains(position) {
-- 
2.43.0


From ac41b90d2122e514a01f8d02c93222a90748821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 59/97] fix: lint diagnostics of the order rules come in a
 fixed order

---
 crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs | 4 ++--
 crates/tombi-linter/src/rule/tables_out_of_order.rs      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
index ed1a7ea..8cb871b 100644
--- a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
@@ -78,8 +78,8 @@ async fn check_dotted_keys_out_of_order(
         return;
     }
 
-    let mut prefix_groups: tombi_hashmap::HashMap<String, Vec<(usize, tombi_text::Range)>> =
-        tombi_hashmap::HashMap::new();
+    let mut prefix_groups: tombi_hashmap::IndexMap<String, Vec<(usize, tombi_text::Range)>> =
+        tombi_hashmap::IndexMap::new();
 
     // Single pass to collect all data
     for (index, key_value) in key_values.enumerate() {
diff --git a/crates/tombi-linter/src/rule/tables_out_of_order.rs b/crates/tombi-linter/src/rule/tables_out_of_order.rs
index c1c7d1d..1e75aa9 100644
--- a/crates/tombi-linter/src/rule/tables_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/tables_out_of_order.rs
@@ -79,8 +79,8 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
         let mut out_of_order_ranges = Vec::new();
 
         // Group tables by their first key component (prefix)
-        let mut prefix_groups: tombi_hashmap::HashMap<&str, Vec<(usize, tombi_text::Range)>> =
-            tombi_hashmap::HashMap::new();
+        let mut prefix_groups: tombi_hashmap::IndexMap<&str, Vec<(usize, tombi_text::Range)>> =
+            tombi_hashmap::IndexMap::new();
         for (pos, keys, range) in &table_positions {
             if !keys.is_empty() {
                 prefix_groups
-- 
2.43.0


From 6d9ae5eeae844ef7d25c2a6a2920d420e1eeb034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 60/97] fix: a formatting request does not change the server's
 document

---
 crates/tombi-lsp/src/handler/formatting.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/formatting.rs b/crates/tombi-lsp/src/handler/formatting.rs
index 18bb6d8..113300c 100644
--- a/crates/tombi-lsp/src/handler/formatting.rs
+++ b/crates/tombi-lsp/src/handler/formatting.rs
@@ -115,13 +115,6 @@ pub async fn handle_formatting(
                 let edits =
                     compute_text_edits(document_text.as_ref(), &formatted, line_index.as_ref());
                 log::debug!("edits: {:?}", edits);
-                if let Ok(mut document_sources) = backend.document_sources.try_write()
-                    && let Some(document_source) = document_sources.get_mut(&text_document_uri)
-                    && document_source.text() == document_text.as_ref()
-                {
-                    document_source.set_text(formatted, toml_version);
-                }
-
                 return Ok(Some(edits));
             } else {
                 log::debug!("no change");
-- 
2.43.0


From 9871b0108221b64f24c8159f10a6037eb3875ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 61/97] fix: semantic tokens stay within one line and do not
 overlap

---
 .../tombi-lsp/src/semantic_tokens/builder.rs  | 124 ++++++++++--------
 1 file changed, 66 insertions(+), 58 deletions(-)

diff --git a/crates/tombi-lsp/src/semantic_tokens/builder.rs b/crates/tombi-lsp/src/semantic_tokens/builder.rs
index eaedcea..d3c52c3 100644
--- a/crates/tombi-lsp/src/semantic_tokens/builder.rs
+++ b/crates/tombi-lsp/src/semantic_tokens/builder.rs
@@ -24,19 +24,49 @@ impl<'a> SemanticTokensBuilder<'a> {
 
     pub fn add_token(&mut self, token_type: TokenType, elem: tombi_syntax::SyntaxElement) {
         let range: tombi_text::Range = elem.range();
-        let (delta_line, delta_start) =
-            delta_line_and_start(self.last_range.start, range.start, self.line_index);
-
-        #[allow(clippy::cast_possible_truncation)]
-        self.tokens.push(SemanticToken {
-            delta_line,
-            delta_start,
-            length: token_length(range, self.line_index),
-            token_type: token_type as u32,
-            token_modifiers_bitset: 0,
-        });
+        if range.start < self.last_range.end {
+            // The tokens of a broken document may be visited more than once.
+            return;
+        }
 
-        self.last_range = range;
+        let token_type = token_type as u32;
+
+        // A token must not span lines, so add one token per line.
+        for line in range.start.line..=range.end.line {
+            let start_column = if line == range.start.line {
+                range.start.column
+            } else {
+                0
+            };
+            let end_column = if line == range.end.line {
+                range.end.column
+            } else {
+                self.line_index
+                    .line_text(line)
+                    .map(|line_text| line_text.graphemes(true).count() as u32)
+                    .unwrap_or_default()
+            };
+            if start_column >= end_column {
+                continue;
+            }
+            let line_range = tombi_text::Range::new(
+                tombi_text::Position::new(line, start_column),
+                tombi_text::Position::new(line, end_column),
+            );
+
+            let (delta_line, delta_start) =
+                delta_line_and_start(self.last_range.start, line_range.start, self.line_index);
+
+            self.tokens.push(SemanticToken {
+                delta_line,
+                delta_start,
+                length: token_length(line_range, self.line_index),
+                token_type,
+                token_modifiers_bitset: 0,
+            });
+
+            self.last_range = line_range;
+        }
     }
 
     pub fn add_comment_directive(
@@ -45,6 +75,10 @@ impl<'a> SemanticTokensBuilder<'a> {
         directive_range: tombi_text::Range,
     ) {
         let comment_range = comment.as_ref().syntax().range();
+        if comment_range.start < self.last_range.end {
+            return;
+        }
+
         let directive_range =
             tower_lsp::lsp_types::Range::from_lsp(directive_range, self.line_index);
         let (delta_line, delta_start) =
@@ -73,13 +107,15 @@ impl<'a> SemanticTokensBuilder<'a> {
             token_modifiers_bitset: 0,
         });
 
-        self.tokens.push(SemanticToken {
-            delta_line: 0,
-            delta_start: directive_len,
-            length: content_len,
-            token_type: TokenType::COMMENT as u32,
-            token_modifiers_bitset: 0,
-        });
+        if content_len > 0 {
+            self.tokens.push(SemanticToken {
+                delta_line: 0,
+                delta_start: directive_len,
+                length: content_len,
+                token_type: TokenType::COMMENT as u32,
+                token_modifiers_bitset: 0,
+            });
+        }
     }
 
     pub fn build(self) -> Vec<SemanticToken> {
@@ -103,45 +139,17 @@ fn delta_line_and_start(
     (line, start)
 }
 
-fn token_length(range: tombi_text::Range, line_index: &tombi_text::LineIndex) -> u32 {
+fn token_length(line_range: tombi_text::Range, line_index: &tombi_text::LineIndex) -> u32 {
     let encoding_kind = line_index.encoding_kind;
 
-    if range.start.line == range.end.line {
-        let Some(line_text) = line_index.line_text(range.start.line) else {
-            log::error!("line_text is None. line: {}", range.start.line);
-            return 0;
-        };
-        let line_text_graphemes = line_text.graphemes(true);
-        line_text_graphemes
-            .skip(range.start.column as usize)
-            .take((range.end.column - range.start.column) as usize)
-            .fold(0, |acc, char| acc + encoding_kind.measure(char))
-    } else {
-        (range.start.line..=range.end.line).fold(0, |acc, line| {
-            acc + line_index
-                .line_text(line)
-                .map(|line_text| {
-                    let line_text_graphemes = line_text.graphemes(true);
-                    let skip_count = if line == range.start.line {
-                        range.start.column as usize
-                    } else {
-                        0
-                    };
-                    let take_count = if line == range.end.line {
-                        if range.end.line == range.start.line {
-                            (range.end.column - range.start.column) as usize
-                        } else {
-                            range.end.column as usize
-                        }
-                    } else {
-                        line_text_graphemes.size_hint().1.unwrap()
-                    };
-                    line_text_graphemes
-                        .skip(skip_count)
-                        .take(take_count)
-                        .fold(0, |acc, char| acc + encoding_kind.measure(char))
-                })
-                .unwrap_or_default()
-        })
-    }
+    let Some(line_text) = line_index.line_text(line_range.start.line) else {
+        log::error!("line_text is None. line: {}", line_range.start.line);
+        return 0;
+    };
+
+    line_text
+        .graphemes(true)
+        .skip(line_range.start.column as usize)
+        .take((line_range.end.column - line_range.start.column) as usize)
+        .fold(0, |acc, char| acc + encoding_kind.measure(char))
 }
-- 
2.43.0


From 898ece40be0e9515fbd9e50d92f7011445037ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:02 +0000
Subject: [PATCH 62/97] fix: the range of an array of tables contains its
 sub-tables

---
 crates/tombi-document-tree/src/value/array.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/tombi-document-tree/src/value/array.rs b/crates/tombi-document-tree/src/value/array.rs
index 58976af..888a3cf 100644
--- a/crates/tombi-document-tree/src/value/array.rs
+++ b/crates/tombi-document-tree/src/value/array.rs
@@ -142,6 +142,8 @@ impl Array {
                     if let Err(errs) = table1.merge(table2) {
                         errors.extend(errs);
                     }
+                    self.range += table1.range();
+                    self.symbol_range += table1.symbol_range();
                 } else {
                     self.push(Value::Table(table2));
                 }
-- 
2.43.0


From 23c5fd1d966eb0d17488bfccf83b076e54cd70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 63/97] fix: references into a local schema that changed are
 resolved again

---
 crates/tombi-schema-store/src/store.rs | 57 +++++++++++++++-----------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/crates/tombi-schema-store/src/store.rs b/crates/tombi-schema-store/src/store.rs
index d8e6e67..4f68124 100644
--- a/crates/tombi-schema-store/src/store.rs
+++ b/crates/tombi-schema-store/src/store.rs
@@ -405,10 +405,11 @@ impl SchemaStore {
         }
 
         let has_key = { self.document_schemas.read().await.contains_key(&schema_uri) };
+        // Taken before the content is read, so that a change in between is noticed later.
+        let version = schema_cache_version(&schema_uri).await;
         if has_key
             && let Some(document_schema) = self.fetch_document_schema(&schema_uri).await.transpose()
         {
-            let version = schema_cache_version(&schema_uri).await;
             self.document_schemas.write().await.insert(
                 schema_uri.clone(),
                 CachedDocumentSchema {
@@ -580,6 +581,28 @@ impl SchemaStore {
         Ok(Some(Arc::new(document_schema)))
     }
 
+    /// Drops every local schema if one of them changed on disk:
+    /// the others may hold references that were resolved with its old content.
+    async fn forget_changed_file_schemas(&self) {
+        let versions = self
+            .document_schemas
+            .read()
+            .await
+            .iter()
+            .filter(|(schema_uri, _)| schema_uri.scheme() == "file")
+            .map(|(schema_uri, cached)| (schema_uri.clone(), cached.version))
+            .collect::<Vec<_>>();
+        for (schema_uri, version) in versions {
+            if schema_cache_version(&schema_uri).await != version {
+                self.document_schemas
+                    .write()
+                    .await
+                    .retain(|schema_uri, _| schema_uri.scheme() != "file");
+                return;
+            }
+        }
+    }
+
     pub fn try_get_document_schema<'a: 'b, 'b>(
         &'a self,
         schema_uri: &'a SchemaUri,
@@ -601,37 +624,23 @@ impl SchemaStore {
                     document.schema_uri == schema_uri || document.base_uri() == &schema_uri
                 })
                 .cloned();
+            self.forget_changed_file_schemas().await;
             let cached_document_schema =
                 self.document_schemas.read().await.get(&schema_uri).cloned();
+            // Taken before the content is read, so that a change in between is noticed later.
+            let cache_version = schema_cache_version(&schema_uri).await;
             let document_schema = if unresolved_document.is_some() {
                 unresolved_document
-            } else if let Some(cached_document_schema) = cached_document_schema {
-                let cache_version = schema_cache_version(&schema_uri).await;
-                if cached_document_schema.version == cache_version {
-                    match cached_document_schema.document_schema {
-                        Ok(document_schema) => Some(document_schema),
-                        Err(err) => return Err(err),
-                    }
-                } else {
-                    match self.fetch_document_schema(&schema_uri).await.transpose() {
-                        Some(document_schema) => {
-                            let cache_version = schema_cache_version(&schema_uri).await;
-                            self.document_schemas.write().await.insert(
-                                schema_uri.clone(),
-                                CachedDocumentSchema {
-                                    version: cache_version,
-                                    document_schema: document_schema.clone(),
-                                },
-                            );
-                            Some(document_schema?)
-                        }
-                        None => None,
-                    }
+            } else if let Some(cached_document_schema) =
+                cached_document_schema.filter(|cached| cached.version == cache_version)
+            {
+                match cached_document_schema.document_schema {
+                    Ok(document_schema) => Some(document_schema),
+                    Err(err) => return Err(err),
                 }
             } else {
                 match self.fetch_document_schema(&schema_uri).await.transpose() {
                     Some(document_schema) => {
-                        let cache_version = schema_cache_version(&schema_uri).await;
                         self.document_schemas.write().await.insert(
                             schema_uri.clone(),
                             CachedDocumentSchema {
-- 
2.43.0


From bf629229ef44a6d496b4e48387752b2514d49138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:12 +0000
Subject: [PATCH 64/97] fix: deprecation of additional keys does not depend on
 what was resolved before

---
 crates/tombi-validator/src/validate/table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index 9d9517f..a8998da 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -370,6 +370,10 @@ async fn validate_table(
                 .await
                 {
                     Ok(Some(current_schema)) => {
+                        // Validating resolves the branches whose deprecation counts below.
+                        let result = value
+                            .validate(&new_accessors, Some(&current_schema), schema_context)
+                            .await;
                         let deprecation = current_schema.schema_view.deprecation().await;
                         handle_deprecated_value(
                             &mut total_diagnostics,
@@ -382,9 +386,6 @@ async fn validate_table(
                             table_rules.as_ref().map(|rules| &rules.common),
                         );
 
-                        let result = value
-                            .validate(&new_accessors, Some(&current_schema), schema_context)
-                            .await;
                         if crate::validate::is_assertion_success(&result) {
                             match_evidence.mark_fallback_child_value(new_accessors.clone());
                         }
-- 
2.43.0


From a0b58500bf172133bb45b7919b9293a59291d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:13 +0000
Subject: [PATCH 65/97] fix: composite schemas are not skipped while another
 task caches them

---
 .../src/schema/referable_schema.rs            | 14 +++--------
 crates/tombi-schema-store/src/store.rs        | 23 ++++++++++---------
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/referable_schema.rs b/crates/tombi-schema-store/src/schema/referable_schema.rs
index 713f3c2..8988744 100644
--- a/crates/tombi-schema-store/src/schema/referable_schema.rs
+++ b/crates/tombi-schema-store/src/schema/referable_schema.rs
@@ -1015,8 +1015,7 @@ pub async fn resolve_and_collect_schemas(
 /// resolves refs on cloned entries, and writes back only newly-resolved entries.
 ///
 /// Returns the successfully resolved schemas together with any resolution errors.
-/// Returns `None` when schema traversal is re-entrant (cycle guard) or when
-/// an initial read lock cannot be acquired due to concurrent mutation.
+/// Returns `None` when schema traversal is re-entrant (cycle guard).
 pub async fn resolve_and_collect_schemas_with_errors(
     schemas: &super::ReferableSchemaViews,
     schema_uri: Cow<'_, SchemaUri>,
@@ -1037,15 +1036,8 @@ pub async fn resolve_and_collect_schemas_with_errors(
 
     let mut schema_entries = Vec::new();
     let resolved_schemas = {
-        let Ok(schema_guard) = schemas.try_read() else {
-            // try_read() failed -- a write lock is held.
-            log::debug!(
-                "failed to acquire read lock for composite schema collection: schema_uri={schema_uri} accessors={accessors} reason=write_lock_held",
-                schema_uri = schema_uri.as_ref(),
-                accessors = crate::Accessors::from(accessors.to_vec())
-            );
-            return None;
-        };
+        // Write locks are only held to cache resolved entries, never across await points.
+        let schema_guard = schemas.read().await;
 
         if schema_guard.iter().all(Referable::is_resolved) {
             Some(
diff --git a/crates/tombi-schema-store/src/store.rs b/crates/tombi-schema-store/src/store.rs
index 4f68124..9f4754e 100644
--- a/crates/tombi-schema-store/src/store.rs
+++ b/crates/tombi-schema-store/src/store.rs
@@ -564,18 +564,19 @@ impl SchemaStore {
         {
             let document_base_uri = document_schema.base_uri().clone();
             let schema_store = self.with_unresolved_document(Arc::new(document_schema.clone()));
-            {
-                for referable_schema in schemas.write().await.iter_mut() {
-                    referable_schema
-                        .resolve(
-                            Cow::Borrowed(&document_base_uri),
-                            Cow::Borrowed(&document_schema.definitions),
-                            None,
-                            &schema_store,
-                        )
-                        .await?;
-                }
+            // Resolve on cloned entries, so that the lock is not held across await points.
+            let mut resolved_schemas = schemas.read().await.clone();
+            for referable_schema in resolved_schemas.iter_mut() {
+                referable_schema
+                    .resolve(
+                        Cow::Borrowed(&document_base_uri),
+                        Cow::Borrowed(&document_schema.definitions),
+                        None,
+                        &schema_store,
+                    )
+                    .await?;
             }
+            *schemas.write().await = resolved_schemas;
         }
 
         Ok(Some(Arc::new(document_schema)))
-- 
2.43.0


From d8cc14541c1f61e55a0d2b126192da343163e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:22 +0000
Subject: [PATCH 66/97] fix: exclude patterns apply to files given relative to
 another directory

---
 crates/tombi-glob/src/file_search.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-glob/src/file_search.rs b/crates/tombi-glob/src/file_search.rs
index 6fe3485..3c34c65 100644
--- a/crates/tombi-glob/src/file_search.rs
+++ b/crates/tombi-glob/src/file_search.rs
@@ -139,8 +139,11 @@ pub async fn search_pattern_matched_paths<P: AsRef<std::path::Path>>(
 }
 
 fn is_excluded(path: &Path, root: &Path, exclude_patterns: Option<&[GlobPattern]>) -> bool {
-    exclude_patterns
-        .is_some_and(|patterns| crate::pattern::path_matches_patterns(path, root, patterns))
+    // The patterns are relative to the root, the path to the current directory.
+    let absolute = |path: &Path| std::path::absolute(path).unwrap_or_else(|_| path.to_path_buf());
+    exclude_patterns.is_some_and(|patterns| {
+        crate::pattern::path_matches_patterns(&absolute(path), &absolute(root), patterns)
+    })
 }
 
 fn is_glob_pattern(path_str: &str) -> bool {
-- 
2.43.0


From 33741ad7cee6cdd76ac97701d84c8a2893ebb8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:41 +0000
Subject: [PATCH 67/97] fix: minLength and maxLength count Unicode code points

---
 crates/tombi-validator/src/validate/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-validator/src/validate/string.rs b/crates/tombi-validator/src/validate/string.rs
index 30e40c1..8096845 100644
--- a/crates/tombi-validator/src/validate/string.rs
+++ b/crates/tombi-validator/src/validate/string.rs
@@ -8,7 +8,6 @@ use tombi_regex::Regex;
 use tombi_schema_store::SchemaView;
 use tombi_severity_level::{SeverityLevelDefaultError, SeverityLevelDefaultWarn};
 use tombi_x_keyword::StringFormat;
-use unicode_segmentation::UnicodeSegmentation;
 
 use crate::{
     comment_directive::{
@@ -474,7 +473,8 @@ pub(crate) fn validate_raw_string<'a>(
         );
     }
 
-    let length = UnicodeSegmentation::graphemes(value, true).count();
+    // JSON Schema counts Unicode code points.
+    let length = value.chars().count();
 
     if let Some(max_length) = &string_schema.max_length
         && length > *max_length
-- 
2.43.0


From 8c122be394e7a120b7bdf7b338a570fdb3663062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:34 +0000
Subject: [PATCH 68/97] fix: unevaluatedItems sees the items that adjacent
 applicators evaluate

---
 crates/tombi-validator/src/validate/array.rs | 72 +++++++++++++-------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/crates/tombi-validator/src/validate/array.rs b/crates/tombi-validator/src/validate/array.rs
index c647385..0c51e6b 100644
--- a/crates/tombi-validator/src/validate/array.rs
+++ b/crates/tombi-validator/src/validate/array.rs
@@ -141,8 +141,8 @@ async fn validate_array(
     let has_unevaluated_items = array_schema.unevaluated_items_schema.is_some()
         || array_schema.unevaluated_items == Some(false);
 
-    if let Some(if_then_else_schema) = array_schema.if_then_else.as_ref()
-        && let Err(error) = validate_if_then_else(
+    if let Some(if_then_else_schema) = array_schema.if_then_else.as_ref() {
+        match validate_if_then_else(
             array_value,
             accessors,
             if_then_else_schema,
@@ -151,15 +151,33 @@ async fn validate_array(
             common_rules,
         )
         .await
-    {
-        assertion_failed |= error.assertion_failed;
-        validation_result
-            .match_evidence
-            .merge_from(*error.match_evidence);
-        validation_result.merge_from(error.local_evaluated_locations);
-        total_diagnostics.extend(error.diagnostics);
+        {
+            Ok(result) => validation_result.merge_from(result),
+            Err(error) => {
+                assertion_failed |= error.assertion_failed;
+                validation_result
+                    .match_evidence
+                    .merge_from(*error.match_evidence);
+                validation_result.merge_from(error.local_evaluated_locations);
+                total_diagnostics.extend(error.diagnostics);
+            }
+        }
     }
 
+    let adjacent_result = validate_adjacent_applicators(
+        array_value,
+        accessors,
+        array_schema.one_of.as_deref(),
+        array_schema.any_of.as_deref(),
+        array_schema.all_of.as_deref(),
+        array_schema.not.as_deref(),
+        current_schema,
+        schema_context,
+        comment_directives,
+        common_rules,
+    )
+    .await;
+
     if let Some(prefix_items) = &array_schema.prefix_items {
         // Resolve the overflow schema once before the loop.
         // 2020-12: items acts as additionalItems when prefixItems is present.
@@ -277,6 +295,8 @@ async fn validate_array(
                     assertion_failed |= child_assertion_failed;
                     total_diagnostics.extend(diagnostics);
                 }
+            } else if array_schema.additional_items == Some(true) {
+                evaluated[index] = true;
             } else if array_schema.additional_items == Some(false) {
                 assertion_failed = true;
                 if has_unevaluated_items {
@@ -377,7 +397,8 @@ async fn validate_array(
     if let Some(contains_schema) = contains_schema {
         let min_contains = array_schema.min_contains.unwrap_or(1);
         let max_contains = array_schema.max_contains;
-        let needs_full_count = max_contains.is_some() || has_unevaluated_items;
+        // Every matching item counts as evaluated, also for the schemas this one is a part of.
+        let needs_full_count = max_contains.is_some() || array_schema.contains_evaluates_items;
         let mut contains_evaluated = vec![false; array_value.values().len()];
 
         let mut match_count = 0usize;
@@ -451,6 +472,20 @@ async fn validate_array(
     }
 
     // Run unevaluatedItems after all applicators that can mark items as evaluated.
+    let adjacent_evaluated = match &adjacent_result {
+        Ok(result) => result,
+        Err(error) => &error.local_evaluated_locations,
+    };
+    for index in validation_result
+        .indices
+        .iter()
+        .chain(&adjacent_evaluated.indices)
+    {
+        evaluated[*index] = true;
+    }
+    if array_schema.unevaluated_items == Some(true) && !has_unevaluated_items {
+        evaluated.fill(true);
+    }
     if has_unevaluated_items {
         let unevaluated_schema = if let Some(schema_item) = &array_schema.unevaluated_items_schema {
             match tombi_schema_store::resolve_schema_item(
@@ -731,22 +766,7 @@ async fn validate_array(
         })
     };
 
-    merge_validation_results(
-        base_result,
-        validate_adjacent_applicators(
-            array_value,
-            accessors,
-            array_schema.one_of.as_deref(),
-            array_schema.any_of.as_deref(),
-            array_schema.all_of.as_deref(),
-            array_schema.not.as_deref(),
-            current_schema,
-            schema_context,
-            comment_directives,
-            lint_rules.map(|rules| &rules.common),
-        )
-        .await,
-    )
+    merge_validation_results(base_result, adjacent_result)
 }
 
 async fn validate_array_without_schema(
-- 
2.43.0


From 98cc7ce07fa0e7c99fd82aed5c798fa282f6d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 69/97] fix: conditions beside properties do not report the
 properties as additional in strict mode

---
 crates/tombi-validator/src/validate/table.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index a8998da..3cef7f1 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -966,6 +966,7 @@ async fn validate_table(
             common_rules,
         )
         .await
+        .or_else(filter_table_strict_additional_diagnostics)
     {
         assertion_failed |= error.assertion_failed;
         match_evidence.merge_from(*error.match_evidence);
-- 
2.43.0


From f3338006d3f78317ab21e338ee0a300905510d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 70/97] fix: a deprecated oneOf schema is reported

---
 crates/tombi-validator/src/validate/one_of.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/tombi-validator/src/validate/one_of.rs b/crates/tombi-validator/src/validate/one_of.rs
index 0cfcbf9..a1f7e41 100644
--- a/crates/tombi-validator/src/validate/one_of.rs
+++ b/crates/tombi-validator/src/validate/one_of.rs
@@ -142,6 +142,19 @@ where
         }
 
         if valid_count == 1 {
+            if one_of_schema.deprecation.is_some() {
+                handle_deprecated(
+                    &mut total_diagnostics,
+                    one_of_schema.deprecation.as_ref(),
+                    accessors,
+                    value,
+                    Some(current_schema),
+                    schema_context,
+                    comment_directives,
+                    common_rules,
+                );
+            }
+
             for result in each_results {
                 match result {
                     Ok(mut result)
-- 
2.43.0


From 1f53f3b101974c53cc1eafe0c5576c25ade0d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:12 +0000
Subject: [PATCH 71/97] fix: cached files of addresses that differ in port or
 query are kept apart

---
 crates/tombi-cache/src/lib.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-cache/src/lib.rs b/crates/tombi-cache/src/lib.rs
index a6c2299..e4aae74 100644
--- a/crates/tombi-cache/src/lib.rs
+++ b/crates/tombi-cache/src/lib.rs
@@ -37,23 +37,54 @@ pub async fn get_cache_file_path(cache_file_uri: &tombi_uri::Uri) -> Option<std:
     get_tombi_cache_dir_path().await.map(|mut dir_path| {
         dir_path.push(cache_file_uri.scheme());
         if let Some(host) = cache_file_uri.host() {
-            dir_path.push(host.to_string());
+            // `@` and `{` cannot be part of a host or a path segment.
+            dir_path.push(match cache_file_uri.port() {
+                Some(port) => format!("{host}@{port}"),
+                None => host.to_string(),
+            });
         }
         if let Some(path_segments) = cache_file_uri.path_segments() {
             for segment in path_segments {
                 dir_path.push(segment)
             }
         }
+        let query_dir_name = cache_file_uri.query().map(query_dir_name);
         if matches!(cache_file_uri.scheme(), "http" | "https")
             && !cache_file_uri.path().ends_with(".json")
         {
+            if let Some(query_dir_name) = query_dir_name {
+                dir_path.push(query_dir_name);
+            }
             dir_path.push(CACHE_INDEX_FILE_NAME);
+        } else if let Some(query_dir_name) = query_dir_name
+            && let Some(file_name) = dir_path.file_name().map(ToOwned::to_owned)
+        {
+            dir_path.set_file_name(query_dir_name);
+            dir_path.push(file_name);
         }
 
         dir_path
     })
 }
 
+/// Directory that tells the queries of one path apart.
+#[cfg(not(target_arch = "wasm32"))]
+fn query_dir_name(query: &str) -> String {
+    use std::fmt::Write;
+
+    let mut name = String::from("{");
+    for byte in query.bytes() {
+        if byte.is_ascii_alphanumeric() || matches!(byte, b'-' | b'_' | b'.' | b'=' | b'&') {
+            name.push(byte as char);
+        } else {
+            let _ = write!(name, "%{byte:02X}");
+        }
+    }
+    name.push('}');
+
+    name
+}
+
 #[cfg(target_arch = "wasm32")]
 pub async fn get_cache_file_path(_cache_file_uri: &tombi_uri::Uri) -> Option<std::path::PathBuf> {
     None
-- 
2.43.0


From 094ab4fa2bef2bbb2239555937f7c5be6134dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:38 +0000
Subject: [PATCH 72/97] fix: positions in a mutable tree add up from the root

---
 crates/tombi-rg-tree/src/cursor.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-rg-tree/src/cursor.rs b/crates/tombi-rg-tree/src/cursor.rs
index 8545f7f..c5299c0 100644
--- a/crates/tombi-rg-tree/src/cursor.rs
+++ b/crates/tombi-rg-tree/src/cursor.rs
@@ -398,21 +398,23 @@ impl NodeData {
 
     #[cold]
     fn position_mut(&self) -> tombi_text::Position {
-        let mut res = Default::default();
+        // Positions do not add up in any order: a line break resets the column.
+        let mut res = tombi_text::RelativePosition::default();
 
         let mut node = self;
         while let Some(parent) = node.parent() {
             let green = parent.green().into_node().unwrap();
-            res += green
+            res = green
                 .children()
                 .raw
                 .nth(node.index() as usize)
                 .unwrap()
-                .relative_position();
+                .relative_position()
+                + res;
             node = parent;
         }
 
-        res
+        tombi_text::Position::default() + res
     }
 
     #[inline]
-- 
2.43.0


From ff86c5170bcdf440c026b37bff39b75667532816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:11 +0000
Subject: [PATCH 73/97] fix: text on standard input that is not to be formatted
 is printed as it is

---
 rust/tombi-cli/src/app/command/format.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/tombi-cli/src/app/command/format.rs b/rust/tombi-cli/src/app/command/format.rs
index f396d31..3514625 100644
--- a/rust/tombi-cli/src/app/command/format.rs
+++ b/rust/tombi-cli/src/app/command/format.rs
@@ -164,6 +164,12 @@ where
                     config_path.as_deref(),
                 ) else {
                     log::debug!("formatting disabled for stdin by override");
+                    if !args.check
+                        && let Err(error) =
+                            std::io::copy(&mut std::io::stdin(), &mut std::io::stdout())
+                    {
+                        log::error!("failed to copy stdin to stdout: {}", error);
+                    }
                     summary.not_needed_num += 1;
                     return Ok(summary);
                 };
-- 
2.43.0


From 5f4ff7e537e92294de4a1c7055d3d9d21b44343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 74/97] fix: A table order override of the root table does not
 reach its sub tables

An override for the target "" in `[[schemas]]` set the order of the
headers below the root as well, but not that of dotted keys.
---
 crates/tombi-ast-editor/src/rule/root_table_keys_order.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
index f442f80..af89980 100644
--- a/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
@@ -67,12 +67,10 @@ pub async fn root_table_keys_order<'a>(
     }
 
     let schema_override = schema_context.table_order_override(current_schema, &[]);
-    let root_order =
-        comment_directive_order.or(schema_override.and_then(|override_item| override_item.order));
     let schema_order_enabled = schema_override.is_some_and(|override_item| !override_item.disabled)
         || schema_context.schema_table_keys_order_enabled(current_schema);
 
-    if root_order.is_none() && !schema_order_enabled {
+    if comment_directive_order.is_none() && !schema_order_enabled {
         return changes;
     }
 
@@ -102,7 +100,7 @@ pub async fn root_table_keys_order<'a>(
             .collect_vec(),
         current_schema,
         schema_context,
-        root_order,
+        comment_directive_order,
         table_order_overrides,
     )
     .await
-- 
2.43.0


From b5181e334a08dcdde505191aa570ae7668318899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:02 +0000
Subject: [PATCH 75/97] fix: An order of a sub table applies to its headers
 when the root table has none

With `format.rules.table-keys-order.enabled = false`, overrides and comment
directives of a table ordered its key-values but not the headers below it.
---
 crates/tombi-ast-editor/src/rule/root_table_keys_order.rs | 7 ++++++-
 crates/tombi-schema-store/src/schema.rs                   | 6 ++++++
 crates/tombi-schema-store/src/schema/schema_context.rs    | 8 ++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
index af89980..ebddb80 100644
--- a/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
@@ -70,7 +70,12 @@ pub async fn root_table_keys_order<'a>(
     let schema_order_enabled = schema_override.is_some_and(|override_item| !override_item.disabled)
         || schema_context.schema_table_keys_order_enabled(current_schema);
 
-    if comment_directive_order.is_none() && !schema_order_enabled {
+    // The order of a sub table applies to its headers also when the root table has none.
+    let sub_table_order_enabled = table_order_overrides
+        .is_some_and(|table_order_overrides| table_order_overrides.has_enabled())
+        || schema_context.has_enabled_table_order_override();
+
+    if comment_directive_order.is_none() && !schema_order_enabled && !sub_table_order_enabled {
         return changes;
     }
 
diff --git a/crates/tombi-schema-store/src/schema.rs b/crates/tombi-schema-store/src/schema.rs
index bd16ff7..a6195b6 100644
--- a/crates/tombi-schema-store/src/schema.rs
+++ b/crates/tombi-schema-store/src/schema.rs
@@ -110,6 +110,12 @@ impl<T: Copy> OrderOverrides<T> {
         self.inner.push(override_item);
     }
 
+    pub fn has_enabled(&self) -> bool {
+        self.inner
+            .iter()
+            .any(|override_item| !override_item.disabled)
+    }
+
     pub fn find(&self, accessors: &[Accessor]) -> Option<&OrderOverride<T>> {
         find_best_pattern_match(&self.inner, accessors, |override_item| {
             &override_item.target
diff --git a/crates/tombi-schema-store/src/schema/schema_context.rs b/crates/tombi-schema-store/src/schema/schema_context.rs
index 4ae9efb..04f17aa 100644
--- a/crates/tombi-schema-store/src/schema/schema_context.rs
+++ b/crates/tombi-schema-store/src/schema/schema_context.rs
@@ -172,6 +172,14 @@ impl SchemaContext<'_> {
             })
     }
 
+    pub fn has_enabled_table_order_override(&self) -> bool {
+        self.schema_overrides.is_some_and(|schema_overrides| {
+            schema_overrides
+                .values()
+                .any(|overrides| overrides.table_keys_order.has_enabled())
+        })
+    }
+
     pub fn root_table_order_overrides(&self) -> Option<&crate::TableOrderOverrides> {
         Some(&self.root_schema_overrides()?.table_keys_order)
     }
-- 
2.43.0


From f9920fbb9d7af481270c6b703f618784cb0513d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:41 +0000
Subject: [PATCH 76/97] fix: A disabled table order override leaves inline
 tables as they are

Dotted keys of an inline table were still grouped, unlike those of a table.
---
 .../tombi-ast-editor/src/rule/inline_table_keys_order.rs   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
index 4da2878..d9d8ff1 100644
--- a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
@@ -34,6 +34,13 @@ pub async fn inline_table_keys_order<'a>(
         .as_ref()
         .and_then(|comment_directive| comment_directive.table_keys_order().map(Into::into));
 
+    if schema_context
+        .table_order_override(current_schema, accessors)
+        .is_some_and(|override_item| override_item.disabled)
+    {
+        return Vec::new();
+    }
+
     let mut changes = vec![];
 
     let is_last_comma = key_values_with_comma
-- 
2.43.0


From 641f3e72490be8de5975c9d71e3e3f1052387423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:11 +0000
Subject: [PATCH 77/97] fix: Array order settings also apply to arrays without
 an item schema

The rules and overrides of `[[schemas]]` were looked up by the schema of the
items, so that an array without one ignored them.
---
 crates/tombi-ast-editor/src/edit/array.rs              | 1 +
 crates/tombi-ast-editor/src/rule/array_values_order.rs | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-ast-editor/src/edit/array.rs b/crates/tombi-ast-editor/src/edit/array.rs
index 197ffd4..7224cee 100644
--- a/crates/tombi-ast-editor/src/edit/array.rs
+++ b/crates/tombi-ast-editor/src/edit/array.rs
@@ -112,6 +112,7 @@ impl crate::Edit for tombi_ast::Array {
                         nodes,
                         values_with_comma,
                         accessors,
+                        current_schema,
                         current_item_schema.as_ref(),
                         schema_context,
                         array_schema_values_order.clone(),
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 74e1daf..a5f19d0 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -35,6 +35,7 @@ pub async fn array_values_order<'a>(
     nodes: Vec<(usize, &'a tombi_document_tree::Value)>,
     values_with_comma: Vec<(tombi_ast::Value, Option<tombi_ast::Comma>)>,
     accessors: &'a [Accessor],
+    array_schema: Option<&'a CurrentSchema<'a>>,
     current_schema: Option<&'a CurrentSchema<'a>>,
     schema_context: &'a SchemaContext<'a>,
     array_schema_values_order: Option<XTombiArrayValuesOrder>,
@@ -61,7 +62,7 @@ pub async fn array_values_order<'a>(
 
     let comment_directive_override =
         array_order_overrides.and_then(|overrides| overrides.find(accessors));
-    let schema_override = schema_context.array_order_override(current_schema, accessors);
+    let schema_override = schema_context.array_order_override(array_schema, accessors);
     if comment_directive_override.is_some_and(|override_item| override_item.disabled)
         || schema_override.is_some_and(|override_item| override_item.disabled)
     {
@@ -77,7 +78,7 @@ pub async fn array_values_order<'a>(
     let values_order = if let Some(order) = override_order {
         Some(XTombiArrayValuesOrder::All(order))
     } else if schema_override_enabled
-        || schema_context.schema_array_values_order_enabled(current_schema)
+        || schema_context.schema_array_values_order_enabled(array_schema)
     {
         array_schema_values_order
     } else {
-- 
2.43.0


From 8bfeaab739cf1f5aa560ea9051fc0a3e5e20b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:25 +0000
Subject: [PATCH 78/97] fix: A dotted key beside the sort key does not keep an
 array from being sorted

Whether the array was sorted depended on the dotted key being before or
behind the key of `x-tombi-array-values-order-by`, so that formatting twice
gave another result than formatting once.
---
 crates/tombi-ast-editor/src/rule/array_values_order/boolean.rs  | 2 --
 crates/tombi-ast-editor/src/rule/array_values_order/integer.rs  | 2 --
 .../tombi-ast-editor/src/rule/array_values_order/local_date.rs  | 2 --
 .../src/rule/array_values_order/local_date_time.rs              | 2 --
 .../tombi-ast-editor/src/rule/array_values_order/local_time.rs  | 2 --
 .../src/rule/array_values_order/offset_date_time.rs             | 2 --
 crates/tombi-ast-editor/src/rule/array_values_order/string.rs   | 2 --
 7 files changed, 14 deletions(-)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order/boolean.rs b/crates/tombi-ast-editor/src/rule/array_values_order/boolean.rs
index 650d476..05a4e19 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order/boolean.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order/boolean.rs
@@ -68,8 +68,6 @@ pub async fn create_boolean_sortable_values<'a>(
                                 found = true;
                                 break 'outer;
                             }
-                        } else {
-                            return Err(SortFailReason::DottedKeysInlineTableNotSupported);
                         }
                     }
                 }
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order/integer.rs b/crates/tombi-ast-editor/src/rule/array_values_order/integer.rs
index 1f266bb..f182f0d 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order/integer.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order/integer.rs
@@ -70,8 +70,6 @@ pub async fn create_integer_sortable_values<'a>(
                                 found = true;
                                 break 'outer;
                             }
-                        } else {
-                            return Err(SortFailReason::DottedKeysInlineTableNotSupported);
                         }
                     }
                 }
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order/local_date.rs b/crates/tombi-ast-editor/src/rule/array_values_order/local_date.rs
index b988ca9..98de373 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order/local_date.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order/local_date.rs
@@ -65,8 +65,6 @@ pub async fn create_local_date_sortable_values<'a>(
                                 found = true;
                                 break 'outer;
                             }
-                        } else {
-                            return Err(SortFailReason::DottedKeysInlineTableNotSupported);
                         }
                     }
                 }
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order/local_date_time.rs b/crates/tombi-ast-editor/src/rule/array_values_order/local_date_time.rs
index bea6947..1c20169 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order/local_date_time.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order/local_date_time.rs
@@ -70,8 +70,6 @@ pub async fn create_local_date_time_sortable_values<'a>(
                                 found = true;
                                 break 'outer;
                             }
-                        } else {
-                            return Err(SortFailReason::DottedKeysInlineTableNotSupported);
                         }
                     }
                 }
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order/local_time.rs b/crates/tombi-ast-editor/src/rule/array_values_order/local_time.rs
index efc6ec5..ed92b35 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order/local_time.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order/local_time.rs
@@ -65,8 +65,6 @@ pub async fn create_local_time_sortable_values<'a>(
                                 found = true;
                                 break 'outer;
                             }
-                        } else {
-                            return Err(SortFailReason::DottedKeysInlineTableNotSupported);
                         }
                     }
                 }
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs b/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs
index f9eb9ad..3633971 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs
@@ -74,8 +74,6 @@ pub async fn create_offset_date_time_sortable_values<'a>(
                                 found = true;
                                 break 'outer;
                             }
-                        } else {
-                            return Err(SortFailReason::DottedKeysInlineTableNotSupported);
                         }
                     }
                 }
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order/string.rs b/crates/tombi-ast-editor/src/rule/array_values_order/string.rs
index 22fd586..eebcd41 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order/string.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order/string.rs
@@ -70,8 +70,6 @@ pub async fn create_string_sortable_values<'a>(
                                 found = true;
                                 break 'outer;
                             }
-                        } else {
-                            return Err(SortFailReason::DottedKeysInlineTableNotSupported);
                         }
                     }
                 }
-- 
2.43.0


From 3ca0d62fdc9aa84ca4201925ab865444b88de45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:49 +0000
Subject: [PATCH 79/97] fix: escape literals and keys inside completion
 snippets

---
 .../src/completion/completion_edit.rs         | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-extension/src/completion/completion_edit.rs b/crates/tombi-extension/src/completion/completion_edit.rs
index bc6878f..ba1e5f8 100644
--- a/crates/tombi-extension/src/completion/completion_edit.rs
+++ b/crates/tombi-extension/src/completion/completion_edit.rs
@@ -52,6 +52,7 @@ impl CompletionEdit {
                 add_leading_comma,
                 add_trailing_comma,
             }) => {
+                let label = escape_snippet_text(label);
                 let new_text = match add_trailing_comma {
                     Some(_) => format!("${{1:{label}}},$0"),
                     None => format!("${{0:{label}}}"),
@@ -276,6 +277,7 @@ impl CompletionEdit {
                 add_leading_comma,
                 add_trailing_comma,
             }) => {
+                let key_name = escape_snippet_text(key_name);
                 let new_text = match add_trailing_comma {
                     Some(_) => format!("{{ {key_name}$1 }},$0"),
                     None => format!("{{ {key_name}$1 }}$0"),
@@ -294,7 +296,10 @@ impl CompletionEdit {
             }
             Some(CompletionHint::EqualTrigger { cleanup_range, .. }) => Some(Self {
                 text_edit: CompletionTextEdit::Edit(TextEdit {
-                    new_text: format!(" = {{ {key_name}$1 }}$0"),
+                    new_text: format!(
+                        " = {{ {key_name}$1 }}$0",
+                        key_name = escape_snippet_text(key_name)
+                    ),
                     range: tombi_text::Range::at(cleanup_range.end),
                 }),
                 insert_text_format: Some(InsertTextFormat::SNIPPET),
@@ -338,6 +343,8 @@ impl CompletionEdit {
                 add_leading_comma,
                 add_trailing_comma,
             }) => {
+                let key_name = escape_snippet_text(key_name);
+                let value_label = escape_snippet_text(value_label);
                 let new_text = match add_trailing_comma {
                     Some(_) => format!("{{ {key_name} = {value_label} }},$0"),
                     None => format!("{{ {key_name} = {value_label} }}$0"),
@@ -546,6 +553,18 @@ impl CompletionEdit {
     }
 }
 
+/// Escapes the characters that have a meaning in the snippet syntax of LSP.
+fn escape_snippet_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        if matches!(c, '\\' | '$' | '}') {
+            escaped.push('\\');
+        }
+        escaped.push(c);
+    }
+    escaped
+}
+
 fn head_comma_text_edits(
     add_leading_comma: Option<AddLeadingComma>,
     _add_trailing_comma: Option<AddTrailingComma>,
-- 
2.43.0


From b109c38fc821b3b0a6a86ae858dbd80fde91be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:49 +0000
Subject: [PATCH 80/97] fix: completed strings are escaped as basic strings

---
 crates/tombi-lsp/src/completion.rs            | 13 ++++++++++---
 .../tombi-lsp/src/completion/value/string.rs  | 19 +++++++++----------
 .../tombi-lsp/src/completion/value/table.rs   |  4 +++-
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/tombi-lsp/src/completion.rs b/crates/tombi-lsp/src/completion.rs
index 38231c4..c0730dc 100644
--- a/crates/tombi-lsp/src/completion.rs
+++ b/crates/tombi-lsp/src/completion.rs
@@ -703,6 +703,13 @@ impl_composite_completion_candidate!(tombi_schema_store::OneOfSchema);
 impl_composite_completion_candidate!(tombi_schema_store::AnyOfSchema);
 impl_composite_completion_candidate!(tombi_schema_store::AllOfSchema);
 
+fn tombi_json_value_to_label(value: &tombi_json::Value) -> String {
+    match value {
+        tombi_json::Value::String(value) => tombi_toml_text::to_basic_string(value),
+        _ => value.to_string(),
+    }
+}
+
 fn tombi_json_value_to_completion_default_item(
     value: &tombi_json::Value,
     position: tombi_text::Position,
@@ -718,7 +725,7 @@ fn tombi_json_value_to_completion_default_item(
         return None;
     }
 
-    let label = value.to_string();
+    let label = tombi_json_value_to_label(value);
     let edit = CompletionEdit::new_literal(&label, position, completion_hint);
 
     Some(CompletionContent::new_default_value(
@@ -746,7 +753,7 @@ fn tombi_json_value_to_completion_example_item(
         return None;
     }
 
-    let label = value.to_string();
+    let label = tombi_json_value_to_label(value);
     let edit = CompletionEdit::new_literal(&label, position, completion_hint);
 
     Some(CompletionContent::new_example_value(
@@ -772,7 +779,7 @@ fn tombi_json_value_to_completion_enum_item(
         return None;
     }
 
-    let label = value.to_string();
+    let label = tombi_json_value_to_label(value);
     let edit = CompletionEdit::new_literal(&label, position, completion_hint);
     Some(CompletionContent::new_enum_value(
         label, None, None, edit, schema_uri, None,
diff --git a/crates/tombi-lsp/src/completion/value/string.rs b/crates/tombi-lsp/src/completion/value/string.rs
index 95989d6..4f6b0bc 100644
--- a/crates/tombi-lsp/src/completion/value/string.rs
+++ b/crates/tombi-lsp/src/completion/value/string.rs
@@ -47,7 +47,10 @@ impl FindCompletionContents for tombi_document_tree::String {
                 return Vec::new();
             }
 
-            let current_string_value = self.value();
+            let current_string_prefix = tombi_toml_text::to_basic_string(self.value());
+            let current_string_prefix = current_string_prefix
+                .strip_suffix('"')
+                .unwrap_or(&current_string_prefix);
 
             if let Some(current_schema) = current_schema {
                 SchemaCompletion
@@ -76,11 +79,7 @@ impl FindCompletionContents for tombi_document_tree::String {
                             return None;
                         }
 
-                        if !completion_content
-                            .label
-                            .trim_matches('"')
-                            .starts_with(current_string_value)
-                        {
+                        if !completion_content.label.starts_with(current_string_prefix) {
                             return None;
                         }
 
@@ -115,7 +114,7 @@ impl FindCompletionContents for StringSchema {
             let schema_uri = current_schema.map(|schema| schema.schema_uri.as_ref());
 
             if let Some(default) = &self.default {
-                let label = format!("\"{default}\"");
+                let label = tombi_toml_text::to_basic_string(default);
                 let edit = CompletionEdit::new_literal(&label, position, completion_hint);
                 completion_items.push(CompletionContent::new_default_value(
                     label,
@@ -128,7 +127,7 @@ impl FindCompletionContents for StringSchema {
             }
 
             if let Some(const_value) = &self.const_value {
-                let label = format!("\"{const_value}\"");
+                let label = tombi_toml_text::to_basic_string(const_value);
                 let edit = CompletionEdit::new_literal(&label, position, completion_hint);
                 completion_items.push(CompletionContent::new_const_value(
                     label,
@@ -155,7 +154,7 @@ impl FindCompletionContents for StringSchema {
 
             if let Some(r#enum) = &self.r#enum {
                 for item in r#enum {
-                    let label = format!("\"{item}\"");
+                    let label = tombi_toml_text::to_basic_string(item);
                     let edit = CompletionEdit::new_literal(&label, position, completion_hint);
                     completion_items.push(CompletionContent::new_enum_value(
                         label,
@@ -183,7 +182,7 @@ impl FindCompletionContents for StringSchema {
 
             if let Some(examples) = &self.examples {
                 for example in examples {
-                    let label = format!("\"{example}\"");
+                    let label = tombi_toml_text::to_basic_string(example);
                     if completion_items.iter().any(|item| item.label == label) {
                         continue;
                     }
diff --git a/crates/tombi-lsp/src/completion/value/table.rs b/crates/tombi-lsp/src/completion/value/table.rs
index 0544b5f..3fe134c 100644
--- a/crates/tombi-lsp/src/completion/value/table.rs
+++ b/crates/tombi-lsp/src/completion/value/table.rs
@@ -1419,7 +1419,9 @@ fn key_singleton_literal_label(schema_candidates: &[SchemaView]) -> Option<Strin
 
             match schema_candidate {
                 SchemaView::String(schema) => {
-                    singleton_label(&schema.const_value, &schema.r#enum, |v| format!("\"{v}\""))
+                    singleton_label(&schema.const_value, &schema.r#enum, |v| {
+                        tombi_toml_text::to_basic_string(v)
+                    })
                 }
                 SchemaView::Boolean(schema) => {
                     singleton_label(&schema.const_value, &schema.r#enum, |v| v.to_string())
-- 
2.43.0


From 4e2476bdc9d7b26f5b921f5faca97d066cde1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:49 +0000
Subject: [PATCH 81/97] fix: keys are completed by prefix only at the key

---
 crates/tombi-lsp/src/completion/value/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/completion/value/table.rs b/crates/tombi-lsp/src/completion/value/table.rs
index 3fe134c..2933c9e 100644
--- a/crates/tombi-lsp/src/completion/value/table.rs
+++ b/crates/tombi-lsp/src/completion/value/table.rs
@@ -207,7 +207,7 @@ impl FindCompletionContents for tombi_document_tree::Table {
                                         return contents;
                                     }
 
-                                    if keys.len() == 1 {
+                                    if keys.len() == 1 && key.range().contains(position) {
                                         let property_keys = table_schema
                                             .properties
                                             .read()
-- 
2.43.0


From 25567d543e5db8d23d444d43f22f970f89d1e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:49 +0000
Subject: [PATCH 82/97] fix: keys in use are not offered again through allOf

---
 crates/tombi-lsp/src/completion/value/table.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/completion/value/table.rs b/crates/tombi-lsp/src/completion/value/table.rs
index 2933c9e..0b1cf56 100644
--- a/crates/tombi-lsp/src/completion/value/table.rs
+++ b/crates/tombi-lsp/src/completion/value/table.rs
@@ -786,7 +786,18 @@ impl FindCompletionContents for tombi_document_tree::Table {
                                 )
                                 .await
                                 .into_iter()
-                                .filter(|item| item.label != "{}")
+                                .filter(|item| {
+                                    item.label != "{}"
+                                        && !self.key_values().iter().any(|(key, value)| {
+                                            item.label.strip_prefix(key.value.as_str()).is_some_and(
+                                                |rest| rest.is_empty() || rest.starts_with(" = "),
+                                            ) && check_used_table_value(
+                                                value,
+                                                accessors.is_empty(),
+                                                completion_hint,
+                                            )
+                                        })
+                                })
                                 .collect_vec();
                                 completion_contents.extend(projected_items);
                             }
-- 
2.43.0


From 4991c7b4cea7d07c4afd63a0a9acf81154f9f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:41 +0000
Subject: [PATCH 83/97] fix: folding ranges count characters in the client's
 encoding

---
 crates/tombi-lsp/src/handler/folding_range.rs | 127 ++++++++++--------
 1 file changed, 70 insertions(+), 57 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/folding_range.rs b/crates/tombi-lsp/src/handler/folding_range.rs
index cdc0905..8bbbb1c 100644
--- a/crates/tombi-lsp/src/handler/folding_range.rs
+++ b/crates/tombi-lsp/src/handler/folding_range.rs
@@ -1,5 +1,6 @@
 use itertools::Itertools;
 use tombi_ast::{AstNode, DanglingCommentGroupOr};
+use tombi_text::IntoLsp;
 use tower_lsp::lsp_types::{FoldingRange, FoldingRangeKind, FoldingRangeParams};
 
 use crate::backend::Backend;
@@ -21,7 +22,8 @@ pub async fn handle_folding_range(
         return Ok(None);
     };
 
-    let folding_ranges = create_folding_ranges(&document_source.ast());
+    let folding_ranges =
+        create_folding_ranges(&document_source.ast(), document_source.line_index());
 
     if !folding_ranges.is_empty() {
         Ok(Some(folding_ranges))
@@ -30,7 +32,10 @@ pub async fn handle_folding_range(
     }
 }
 
-fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
+fn create_folding_ranges(
+    root: &tombi_ast::Root,
+    line_index: &tombi_text::LineIndex,
+) -> Vec<FoldingRange> {
     let mut ranges: Vec<FoldingRange> = vec![];
 
     for node in root.syntax().descendants() {
@@ -38,7 +43,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [key_value
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -49,13 +54,13 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                 table
                     .header_leading_comments()
                     .collect_vec()
-                    .get_comment_folding_range(),
-                table.get_region_folding_range(),
+                    .get_comment_folding_range(line_index),
+                table.get_region_folding_range(line_index),
                 table
                     .dangling_comment_groups()
                     .map(|comment_group| comment_group.into_comments().collect_vec())
                     .collect_vec()
-                    .get_comment_folding_range(),
+                    .get_comment_folding_range(line_index),
             ) {
                 ranges.push(folding_range);
             }
@@ -68,7 +73,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                         comment_group
                             .into_comments()
                             .collect_vec()
-                            .get_comment_folding_range()
+                            .get_comment_folding_range(line_index)
                     }),
             );
         } else if let Some(array_of_table) = tombi_ast::ArrayOfTable::cast(node.to_owned()) {
@@ -76,13 +81,13 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                 array_of_table
                     .header_leading_comments()
                     .collect_vec()
-                    .get_comment_folding_range(),
-                array_of_table.get_region_folding_range(),
+                    .get_comment_folding_range(line_index),
+                array_of_table.get_region_folding_range(line_index),
                 array_of_table
                     .dangling_comment_groups()
                     .map(|comment_group| comment_group.into_comments().collect_vec())
                     .collect_vec()
-                    .get_comment_folding_range(),
+                    .get_comment_folding_range(line_index),
             ) {
                 ranges.push(folding_range);
             }
@@ -95,14 +100,14 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                         comment_group
                             .into_comments()
                             .collect_vec()
-                            .get_comment_folding_range()
+                            .get_comment_folding_range(line_index)
                     }),
             );
         } else if let Some(boolean) = tombi_ast::Boolean::cast(node.to_owned()) {
             for folding_range in [boolean
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -112,7 +117,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [integer_bin
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -122,7 +127,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [integer_oct
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -132,7 +137,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [integer_dec
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -142,7 +147,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [integer_hex
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -152,7 +157,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [float
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -162,7 +167,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [basic_string
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -172,7 +177,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [literal_string
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -185,8 +190,8 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                 multi_line_basic_string
                     .leading_comments()
                     .collect_vec()
-                    .get_comment_folding_range(),
-                multi_line_basic_string.get_region_folding_range(),
+                    .get_comment_folding_range(line_index),
+                multi_line_basic_string.get_region_folding_range(line_index),
             ]
             .into_iter()
             .flatten()
@@ -200,8 +205,8 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                 multi_line_literal_string
                     .leading_comments()
                     .collect_vec()
-                    .get_comment_folding_range(),
-                multi_line_literal_string.get_region_folding_range(),
+                    .get_comment_folding_range(line_index),
+                multi_line_literal_string.get_region_folding_range(line_index),
             ]
             .into_iter()
             .flatten()
@@ -212,7 +217,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [offset_date_time
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -222,7 +227,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [local_date_time
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -232,7 +237,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [local_date
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -242,7 +247,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
             for folding_range in [local_time
                 .leading_comments()
                 .collect_vec()
-                .get_comment_folding_range()]
+                .get_comment_folding_range(line_index)]
             .into_iter()
             .flatten()
             {
@@ -253,13 +258,13 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                 array
                     .leading_comments()
                     .collect_vec()
-                    .get_comment_folding_range(),
+                    .get_comment_folding_range(line_index),
                 array
                     .dangling_comment_groups()
                     .map(|comment_group| comment_group.into_comments().collect_vec())
                     .collect_vec()
-                    .get_comment_folding_range(),
-                array.get_region_folding_range(),
+                    .get_comment_folding_range(line_index),
+                array.get_region_folding_range(line_index),
             ) {
                 ranges.push(folding_range);
             }
@@ -270,7 +275,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                         if let Some(folding_range) = comment_group
                             .into_comments()
                             .collect_vec()
-                            .get_comment_folding_range()
+                            .get_comment_folding_range(line_index)
                         {
                             ranges.push(folding_range);
                         }
@@ -284,7 +289,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                             if let Some(folding_range) = comma
                                 .leading_comments()
                                 .collect_vec()
-                                .get_comment_folding_range()
+                                .get_comment_folding_range(line_index)
                             {
                                 ranges.push(folding_range);
                             }
@@ -297,13 +302,13 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                 inline_table
                     .leading_comments()
                     .collect_vec()
-                    .get_comment_folding_range(),
+                    .get_comment_folding_range(line_index),
                 inline_table
                     .dangling_comment_groups()
                     .map(|comment_group| comment_group.into_comments().collect_vec())
                     .collect_vec()
-                    .get_comment_folding_range(),
-                inline_table.get_region_folding_range(),
+                    .get_comment_folding_range(line_index),
+                inline_table.get_region_folding_range(line_index),
             ]
             .into_iter()
             .flatten()
@@ -317,7 +322,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                         if let Some(folding_range) = comment_group
                             .into_comments()
                             .collect_vec()
-                            .get_comment_folding_range()
+                            .get_comment_folding_range(line_index)
                         {
                             ranges.push(folding_range);
                         }
@@ -331,7 +336,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                             if let Some(folding_range) = comma
                                 .leading_comments()
                                 .collect_vec()
-                                .get_comment_folding_range()
+                                .get_comment_folding_range(line_index)
                             {
                                 ranges.push(folding_range);
                             }
@@ -344,7 +349,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                 root.dangling_comment_groups()
                     .map(|comment_group| comment_group.into_comments().collect_vec())
                     .collect_vec()
-                    .get_comment_folding_range()
+                    .get_comment_folding_range(line_index)
             ) {
                 ranges.push(folding_range);
             }
@@ -356,7 +361,7 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
                         comment_group
                             .into_comments()
                             .collect_vec()
-                            .get_comment_folding_range()
+                            .get_comment_folding_range(line_index)
                     }),
             );
         }
@@ -365,19 +370,30 @@ fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
     ranges
 }
 
+fn into_folding_range(
+    range: tombi_text::Range,
+    kind: FoldingRangeKind,
+    line_index: &tombi_text::LineIndex,
+) -> FoldingRange {
+    let range: tower_lsp::lsp_types::Range = range.into_lsp(line_index);
+
+    FoldingRange {
+        start_line: range.start.line,
+        start_character: Some(range.start.character),
+        end_line: range.end.line,
+        end_character: Some(range.end.character),
+        kind: Some(kind),
+        collapsed_text: None,
+    }
+}
+
 trait GetRegionFoldingRange {
     fn get_folding_range(&self) -> Option<tombi_text::Range>;
 
     #[inline]
-    fn get_region_folding_range(&self) -> Option<FoldingRange> {
-        self.get_folding_range().map(|range| FoldingRange {
-            start_line: range.start.line,
-            start_character: Some(range.start.column),
-            end_line: range.end.line,
-            end_character: Some(range.end.column),
-            kind: Some(FoldingRangeKind::Region),
-            collapsed_text: None,
-        })
+    fn get_region_folding_range(&self, line_index: &tombi_text::LineIndex) -> Option<FoldingRange> {
+        self.get_folding_range()
+            .map(|range| into_folding_range(range, FoldingRangeKind::Region, line_index))
     }
 }
 
@@ -385,15 +401,12 @@ trait GetCommentFoldingRange {
     fn get_folding_range(&self) -> Option<tombi_text::Range>;
 
     #[inline]
-    fn get_comment_folding_range(&self) -> Option<FoldingRange> {
-        self.get_folding_range().map(|range| FoldingRange {
-            start_line: range.start.line,
-            start_character: Some(range.start.column),
-            end_line: range.end.line,
-            end_character: Some(range.end.column),
-            kind: Some(FoldingRangeKind::Comment),
-            collapsed_text: None,
-        })
+    fn get_comment_folding_range(
+        &self,
+        line_index: &tombi_text::LineIndex,
+    ) -> Option<FoldingRange> {
+        self.get_folding_range()
+            .map(|range| into_folding_range(range, FoldingRangeKind::Comment, line_index))
     }
 }
 
-- 
2.43.0


From 3f37052056905121c303455f946f83d7e34f2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:41 +0000
Subject: [PATCH 84/97] fix: width of an array or inline table counts the
 comment's space once, and empty ones are not broken

---
 crates/tombi-formatter/src/format/value/array.rs        | 7 ++++++-
 crates/tombi-formatter/src/format/value/inline_table.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-formatter/src/format/value/array.rs b/crates/tombi-formatter/src/format/value/array.rs
index e1da6e8..e52b1da 100644
--- a/crates/tombi-formatter/src/format/value/array.rs
+++ b/crates/tombi-formatter/src/format/value/array.rs
@@ -67,8 +67,13 @@ pub(crate) fn exceeds_line_width(
         }
     }
 
+    if first {
+        // Breaking an empty array does not make it shorter.
+        return Ok(false);
+    }
+
     if let Some(trailing_comment) = node.trailing_comment() {
-        length += f.trailing_comment_space().len();
+        // The space before the comment is a part of it.
         length += f
             .format_to_string(&trailing_comment)?
             .graphemes(true)
diff --git a/crates/tombi-formatter/src/format/value/inline_table.rs b/crates/tombi-formatter/src/format/value/inline_table.rs
index b980506..063fadb 100644
--- a/crates/tombi-formatter/src/format/value/inline_table.rs
+++ b/crates/tombi-formatter/src/format/value/inline_table.rs
@@ -71,8 +71,13 @@ pub(crate) fn exceeds_line_width(
         }
     }
 
+    if first {
+        // Breaking an empty inline table does not make it shorter.
+        return Ok(false);
+    }
+
     if let Some(trailing_comment) = node.trailing_comment() {
-        length += f.trailing_comment_space().len();
+        // The space before the comment is a part of it.
         length += f
             .format_to_string(&trailing_comment)?
             .graphemes(true)
-- 
2.43.0


From 1033800a7207cc225c238ff14de02d4316a1f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:10 +0000
Subject: [PATCH 85/97] fix: exclude the paths of workspace.exclude from the
 members of a Cargo workspace

---
 extensions/tombi-extension-cargo/src/workspace.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/workspace.rs b/extensions/tombi-extension-cargo/src/workspace.rs
index ba4c5e0..635a9f2 100644
--- a/extensions/tombi-extension-cargo/src/workspace.rs
+++ b/extensions/tombi-extension-cargo/src/workspace.rs
@@ -567,6 +567,11 @@ pub(crate) fn find_package_cargo_toml_paths<'a>(
     exclude_patterns: &'a [&'a tombi_document_tree::String],
     workspace_dir_path: &'a std::path::Path,
 ) -> impl Iterator<Item = (&'a tombi_document_tree::String, std::path::PathBuf)> + 'a {
+    // The entries of `exclude` are paths relative to the workspace root.
+    let exclude_paths = exclude_patterns
+        .iter()
+        .map(|pattern| workspace_dir_path.join(pattern.value()))
+        .collect_vec();
     let exclude_patterns = exclude_patterns
         .iter()
         .filter_map(|pattern| glob::Pattern::new(pattern.value()).ok())
@@ -598,9 +603,12 @@ pub(crate) fn find_package_cargo_toml_paths<'a>(
                     continue;
                 }
 
-                let is_excluded = exclude_patterns.iter().any(|exclude_pattern| {
-                    exclude_pattern.matches(&cargo_toml_path.to_string_lossy())
-                });
+                let is_excluded = exclude_paths
+                    .iter()
+                    .any(|exclude_path| cargo_toml_path.starts_with(exclude_path))
+                    || exclude_patterns.iter().any(|exclude_pattern| {
+                        exclude_pattern.matches(&cargo_toml_path.to_string_lossy())
+                    });
 
                 if !is_excluded {
                     cargo_toml_paths.push((member_pattern, cargo_toml_path));
-- 
2.43.0


From 772a7f5b21b2738cba0143c5c83aeec1b23ba6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:21 +0000
Subject: [PATCH 86/97] fix: an inherited dependency refers to the package of
 its workspace entry

---
 .../tombi-extension-cargo/src/references.rs   | 35 +++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/references.rs b/extensions/tombi-extension-cargo/src/references.rs
index ee33151..89a50ae 100644
--- a/extensions/tombi-extension-cargo/src/references.rs
+++ b/extensions/tombi-extension-cargo/src/references.rs
@@ -109,6 +109,7 @@ pub(crate) async fn package_name_reference_locations(
 
         collect_member_dependency_references(
             &mut locations,
+            &workspace_document_tree,
             &crate_document_tree,
             &crate_location.cargo_toml_path,
             package_name.value(),
@@ -146,6 +147,7 @@ fn collect_workspace_dependency_references(
 
 fn collect_member_dependency_references(
     locations: &mut Vec<tombi_extension::Location>,
+    workspace_document_tree: &tombi_document_tree::DocumentTree,
     crate_document_tree: &tombi_document_tree::DocumentTree,
     crate_cargo_toml_path: &std::path::Path,
     package_name: &str,
@@ -158,7 +160,13 @@ fn collect_member_dependency_references(
         if let Some((_, Value::Table(dependencies))) =
             dig_keys(crate_document_tree, &[dependency_kind])
         {
-            collect_dependency_table_references(locations, &uri, dependencies, package_name);
+            collect_dependency_table_references(
+                locations,
+                workspace_document_tree,
+                &uri,
+                dependencies,
+                package_name,
+            );
         }
     }
 
@@ -173,7 +181,13 @@ fn collect_member_dependency_references(
                 else {
                     continue;
                 };
-                collect_dependency_table_references(locations, &uri, dependencies, package_name);
+                collect_dependency_table_references(
+                    locations,
+                    workspace_document_tree,
+                    &uri,
+                    dependencies,
+                    package_name,
+                );
             }
         }
     }
@@ -181,11 +195,28 @@ fn collect_member_dependency_references(
 
 fn collect_dependency_table_references(
     locations: &mut Vec<tombi_extension::Location>,
+    workspace_document_tree: &tombi_document_tree::DocumentTree,
     uri: &tombi_uri::Uri,
     dependencies: &tombi_document_tree::Table,
     package_name: &str,
 ) {
     for (dependency_key, dependency_value) in dependencies.key_values() {
+        // An inherited dependency has the package of its workspace entry.
+        let dependency_value = match dependency_value {
+            Value::Table(table)
+                if matches!(
+                    table.get("workspace"),
+                    Some(Value::Boolean(has_workspace)) if has_workspace.value()
+                ) =>
+            {
+                dig_keys(
+                    workspace_document_tree,
+                    &["workspace", "dependencies", dependency_key.value()],
+                )
+                .map_or(dependency_value, |(_, value)| value)
+            }
+            _ => dependency_value,
+        };
         if dependency_package_name(dependency_key.value(), dependency_value) == package_name {
             locations.push(tombi_extension::Location {
                 uri: uri.clone(),
-- 
2.43.0


From fc4312cba8d83e479e7ac5eb89eedcf6ee29a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:28 +0000
Subject: [PATCH 87/97] fix: exclude patterns of a uv workspace are relative to
 its root

---
 extensions/tombi-extension-pyproject/src/workspace.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/extensions/tombi-extension-pyproject/src/workspace.rs b/extensions/tombi-extension-pyproject/src/workspace.rs
index 8f902d8..7598501 100644
--- a/extensions/tombi-extension-pyproject/src/workspace.rs
+++ b/extensions/tombi-extension-pyproject/src/workspace.rs
@@ -59,9 +59,15 @@ pub(crate) fn find_pyproject_toml_paths<'a>(
     exclude_patterns: &'a [&'a tombi_document_tree::String],
     workspace_dir_path: &'a std::path::Path,
 ) -> impl Iterator<Item = (&'a tombi_document_tree::String, std::path::PathBuf)> + 'a {
+    // The patterns of `exclude` are relative to the workspace root.
+    let escaped_workspace_dir = glob::Pattern::escape(&workspace_dir_path.to_string_lossy());
     let exclude_patterns = exclude_patterns
         .iter()
-        .filter_map(|pattern| glob::Pattern::new(pattern.value()).ok())
+        .filter_map(|pattern| {
+            let exclude_path = std::path::Path::new(&escaped_workspace_dir)
+                .join(pattern.value().trim_end_matches('/'));
+            glob::Pattern::new(&exclude_path.to_string_lossy()).ok()
+        })
         .collect_vec();
 
     member_patterns
@@ -91,7 +97,8 @@ pub(crate) fn find_pyproject_toml_paths<'a>(
                 }
 
                 let is_excluded = exclude_patterns.iter().any(|exclude_pattern| {
-                    exclude_pattern.matches(&manifest_path.to_string_lossy())
+                    exclude_pattern.matches(&candidate_path.to_string_lossy())
+                        || exclude_pattern.matches(&manifest_path.to_string_lossy())
                 });
 
                 if !is_excluded {
-- 
2.43.0


From dd7bcb5a303a7119731eda37ee0e2078d1e7d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:28 +0000
Subject: [PATCH 88/97] fix: locations in the path source of a uv project have
 a canonical path

---
 extensions/tombi-extension-pyproject/src/manifest.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/tombi-extension-pyproject/src/manifest.rs b/extensions/tombi-extension-pyproject/src/manifest.rs
index 94ca246..ecef699 100644
--- a/extensions/tombi-extension-pyproject/src/manifest.rs
+++ b/extensions/tombi-extension-pyproject/src/manifest.rs
@@ -69,11 +69,13 @@ pub(crate) fn resolve_member_pyproject_toml_path(
     base_pyproject_toml_path: &Path,
     dependency_path: &str,
 ) -> Option<std::path::PathBuf> {
-    tombi_extension_manifest::resolve_manifest_path(
+    let pyproject_toml_path = tombi_extension_manifest::resolve_manifest_path(
         base_pyproject_toml_path,
         Path::new(dependency_path),
         "pyproject.toml",
-    )
+    )?;
+
+    tombi_fs::canonicalize(&pyproject_toml_path).ok()
 }
 
 pub(crate) fn resolve_relative_path_uri(
-- 
2.43.0


From fafd40aa5c7064cc438d9049bce0621be58c88ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:22 +0000
Subject: [PATCH 89/97] fix: the place of an entry added to an inline table of
 workspace dependencies

---
 .../tombi-extension-cargo/src/code_action.rs  | 22 +++++--------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/code_action.rs b/extensions/tombi-extension-cargo/src/code_action.rs
index 708bbce..8f39409 100644
--- a/extensions/tombi-extension-cargo/src/code_action.rs
+++ b/extensions/tombi-extension-cargo/src/code_action.rs
@@ -840,15 +840,6 @@ fn calculate_inline_table_insertion(
         };
     }
 
-    if insertion_index == 0 {
-        // Insert at the beginning
-        // { tokio = "1.0" } -> { serde = "1.0", tokio = "1.0" }
-        let (first_key_value, _) = key_values_with_comma.first()?;
-        let insert_pos = first_key_value.syntax().range().start;
-        let new_text = format!("{},\n", new_entry_text);
-        return Some((insert_pos, new_text));
-    }
-
     if insertion_index >= key_values_with_comma.len() {
         // Insert at the end
         // { serde = "1.0" } -> { serde = "1.0", tokio = "1.0" }
@@ -864,15 +855,12 @@ fn calculate_inline_table_insertion(
         }
     }
 
-    // Insert in the middle
+    // Insert before the entry at the insertion index
+    // { tokio = "1.0" } -> { serde = "1.0", tokio = "1.0" }
     // { serde = "1.0", tracing = "0.1" } -> { serde = "1.0", tokio = "1.0", tracing = "0.1" }
-    let (target_key_value, target_comma) = key_values_with_comma.get(insertion_index)?;
-    let insert_pos = if let Some(target_comma) = target_comma {
-        target_comma.range().end
-    } else {
-        target_key_value.syntax().range().end
-    };
-    let new_text = format!("\n{},\n", new_entry_text);
+    let (target_key_value, _) = key_values_with_comma.get(insertion_index)?;
+    let insert_pos = target_key_value.syntax().range().start;
+    let new_text = format!("{}, ", new_entry_text);
     Some((insert_pos, new_text))
 }
 
-- 
2.43.0


From 77ab160ab3aa39043c7cfbbbb8358ad30c96dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:22 +0000
Subject: [PATCH 90/97] fix: a dependency added to the workspace is not
 optional there

---
 .../tombi-extension-cargo/src/code_action.rs  | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/extensions/tombi-extension-cargo/src/code_action.rs b/extensions/tombi-extension-cargo/src/code_action.rs
index 8f39409..f97c445 100644
--- a/extensions/tombi-extension-cargo/src/code_action.rs
+++ b/extensions/tombi-extension-cargo/src/code_action.rs
@@ -1025,7 +1025,7 @@ fn generate_workspace_dependencies_edit(
     // Get existing crate names and calculate insertion index
     let existing_crates: Vec<&str> = table.keys().map(|key| key.value.as_str()).collect();
     let insertion_index = calculate_insertion_index(&existing_crates, crate_name);
-    let crate_value_text = crate_value.to_string();
+    let crate_value_text = render_workspace_dependency_value(crate_value);
 
     // Find insertion position in the actual table
     let (insertion_range, new_text) = if table.kind() == TableKind::Table {
@@ -1078,6 +1078,24 @@ fn generate_workspace_dependencies_edit(
     })
 }
 
+/// Render the dependency of a member as an entry of workspace.dependencies
+///
+/// A workspace dependency cannot be optional; `optional` stays with the member.
+fn render_workspace_dependency_value(crate_value: &tombi_document_tree::Value) -> String {
+    let tombi_document_tree::Value::Table(table) = crate_value else {
+        return crate_value.to_string();
+    };
+
+    let entries = table
+        .key_values()
+        .iter()
+        .filter(|(key, _)| key.value != "optional")
+        .map(|(key, value)| format!("{key} = {value}"))
+        .collect::<Vec<_>>();
+
+    format!("{{ {} }}", entries.join(", "))
+}
+
 /// Generate TextEdit for converting member dependency to workspace inheritance.
 fn generate_member_workspace_true_edit(
     line_index: &tombi_text::LineIndex,
-- 
2.43.0


From 1aaed28c53b3752e9d2a1ad73db57fe596e3071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:43 +0000
Subject: [PATCH 91/97] fix: a dependency is added below the header of
 workspace.dependencies

---
 .../tombi-extension-cargo/src/code_action.rs  | 105 ++++++++++++------
 1 file changed, 69 insertions(+), 36 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/code_action.rs b/extensions/tombi-extension-cargo/src/code_action.rs
index f97c445..b2ea778 100644
--- a/extensions/tombi-extension-cargo/src/code_action.rs
+++ b/extensions/tombi-extension-cargo/src/code_action.rs
@@ -864,6 +864,63 @@ fn calculate_inline_table_insertion(
     Some((insert_pos, new_text))
 }
 
+/// Get the AST table of the `[workspace.dependencies]` header
+fn get_ast_workspace_dependencies_table(root: &tombi_ast::Root) -> Option<tombi_ast::Table> {
+    use tombi_ast::AstNode;
+
+    root.syntax()
+        .descendants()
+        .filter_map(tombi_ast::Table::cast)
+        .find(|table| {
+            table.header().is_some_and(|header| {
+                header
+                    .keys()
+                    .map(|key| key.to_raw_text(tombi_config::TomlVersion::default()))
+                    .eq(["workspace", "dependencies"])
+            })
+        })
+}
+
+/// Calculate insertion position and text for an entry of the `[workspace.dependencies]` table
+///
+/// Only the entries right below the header count: a dependency with a table of its own
+/// (`[workspace.dependencies.serde]`) comes after them.
+fn calculate_table_insertion(
+    ast_table: &tombi_ast::Table,
+    crate_name: &str,
+    new_entry_text: &str,
+) -> Option<(tombi_text::Position, String)> {
+    use tombi_ast::AstNode;
+
+    let entries = ast_table
+        .key_values()
+        .filter_map(|key_value| {
+            let key = key_value.keys()?.keys().next()?;
+            let name = key.to_raw_text(tombi_config::TomlVersion::default());
+            Some((name, key.range(), key_value))
+        })
+        .collect::<Vec<_>>();
+    let names = entries
+        .iter()
+        .map(|(name, _, _)| name.as_str())
+        .collect::<Vec<_>>();
+
+    if let Some((_, key_range, _)) = entries.get(calculate_insertion_index(&names, crate_name)) {
+        return Some((key_range.start, format!("{new_entry_text}\n")));
+    }
+
+    // Insert after the last entry, or the header when there is no entry
+    let end = if let Some((_, _, last_key_value)) = entries.last() {
+        last_key_value.syntax().range().end
+    } else if let Some(comment) = ast_table.header_trailing_comment() {
+        comment.syntax().range().end
+    } else {
+        ast_table.bracket_end()?.range().end
+    };
+
+    Some((end, format!("\n{new_entry_text}")))
+}
+
 /// Add a dependency to workspace.dependencies and convert member's dependency
 /// to workspace inheritance format.
 ///
@@ -1022,39 +1079,16 @@ fn generate_workspace_dependencies_edit(
         return None;
     };
 
-    // Get existing crate names and calculate insertion index
-    let existing_crates: Vec<&str> = table.keys().map(|key| key.value.as_str()).collect();
-    let insertion_index = calculate_insertion_index(&existing_crates, crate_name);
     let crate_value_text = render_workspace_dependency_value(crate_value);
+    let new_entry_text = format!("{crate_name} = {crate_value_text}");
 
     // Find insertion position in the actual table
-    let (insertion_range, new_text) = if table.kind() == TableKind::Table {
-        let insertion_range = if insertion_index == 0 {
-            if table.is_empty() {
-                tombi_text::Range::at(table.range().end)
-            } else {
-                let range = table.keys().next().unwrap().range();
-                tombi_text::Range::at(range.start)
-            }
-        } else if insertion_index >= existing_crates.len() {
-            // Insert at the end of the table
-            let range = table.range();
-            tombi_text::Range::at(range.end)
-        } else {
-            // Insert before the crate at insertion_index
-            if let Some((target_key, _)) = table.get_key_value(existing_crates[insertion_index]) {
-                let range = target_key.range();
-                tombi_text::Range::at(range.start)
-            } else {
-                let range = table.range();
-                tombi_text::Range::at(range.end)
-            }
-        };
-
-        (
-            insertion_range,
-            format!("{crate_name} = {crate_value_text}\n"),
-        )
+    let (insertion_position, new_text) = if table.kind() == TableKind::Table {
+        calculate_table_insertion(
+            &get_ast_workspace_dependencies_table(workspace_root)?,
+            crate_name,
+            &new_entry_text,
+        )?
     } else if matches!(table.kind(), TableKind::InlineTable { .. }) {
         // Handle InlineTable case using AST for accurate comma handling
         let ast_inline_table = get_ast_inline_table_from_document_tree(
@@ -1063,17 +1097,16 @@ fn generate_workspace_dependencies_edit(
             &["workspace", "dependencies"],
         )?;
 
-        let new_entry_text = format!("{crate_name} = {crate_value_text}");
-        let (insertion_pos, new_text) =
-            calculate_inline_table_insertion(&ast_inline_table, insertion_index, &new_entry_text)?;
-
-        (tombi_text::Range::at(insertion_pos), new_text)
+        // Get existing crate names and calculate insertion index
+        let existing_crates: Vec<&str> = table.keys().map(|key| key.value.as_str()).collect();
+        let insertion_index = calculate_insertion_index(&existing_crates, crate_name);
+        calculate_inline_table_insertion(&ast_inline_table, insertion_index, &new_entry_text)?
     } else {
         return None;
     };
 
     Some(TextEdit {
-        range: insertion_range.into_lsp(workspace_line_index),
+        range: tombi_text::Range::at(insertion_position).into_lsp(workspace_line_index),
         new_text,
     })
 }
-- 
2.43.0


From 45681483d3edbeed42af5f4831dce780454c2cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:43 +0000
Subject: [PATCH 92/97] fix: comments in an inline table to which a workspace
 dependency is added

---
 extensions/tombi-extension-cargo/src/code_action.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/code_action.rs b/extensions/tombi-extension-cargo/src/code_action.rs
index b2ea778..3160f6f 100644
--- a/extensions/tombi-extension-cargo/src/code_action.rs
+++ b/extensions/tombi-extension-cargo/src/code_action.rs
@@ -849,7 +849,14 @@ fn calculate_inline_table_insertion(
             let new_text = format!("\n{}, ", new_entry_text);
             return Some((insert_pos, new_text));
         } else {
-            let insert_pos = last_key_value.syntax().range().end;
+            // Before a trailing comment of the last entry
+            let last_token = last_key_value
+                .syntax()
+                .descendants_with_tokens()
+                .filter_map(|node_or_token| node_or_token.into_token())
+                .filter(|token| !token.text().starts_with('#') && !token.text().trim().is_empty())
+                .last()?;
+            let insert_pos = last_token.range().end;
             let new_text = format!(", {}", new_entry_text);
             return Some((insert_pos, new_text));
         }
@@ -859,7 +866,7 @@ fn calculate_inline_table_insertion(
     // { tokio = "1.0" } -> { serde = "1.0", tokio = "1.0" }
     // { serde = "1.0", tracing = "0.1" } -> { serde = "1.0", tokio = "1.0", tracing = "0.1" }
     let (target_key_value, _) = key_values_with_comma.get(insertion_index)?;
-    let insert_pos = target_key_value.syntax().range().start;
+    let insert_pos = target_key_value.keys()?.range().start;
     let new_text = format!("{}, ", new_entry_text);
     Some((insert_pos, new_text))
 }
-- 
2.43.0


From f82a16af63bd5588a8b53a521b242b47d0e67a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:16 +0000
Subject: [PATCH 93/97] fix: a member that uses a workspace dependency keeps
 its own extras

---
 .../tombi-extension-pyproject/src/code_action.rs      | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/extensions/tombi-extension-pyproject/src/code_action.rs b/extensions/tombi-extension-pyproject/src/code_action.rs
index 863ab67..8dd66e5 100644
--- a/extensions/tombi-extension-pyproject/src/code_action.rs
+++ b/extensions/tombi-extension-pyproject/src/code_action.rs
@@ -689,18 +689,17 @@ fn use_workspace_dependency_code_action(
 
     let workspace_dependency_requirements =
         collect_dependency_requirements_from_document_tree(workspace_document_tree);
-    let DependencyRequirement {
-        requirement: workspace_requirement,
-        ..
-    } = workspace_dependency_requirements.iter().find(
+    if !workspace_dependency_requirements.iter().any(
         |DependencyRequirement {
              requirement: workspace_requirement,
              ..
          }| workspace_requirement.name == requirement.name,
-    )?;
+    ) {
+        return None;
+    }
 
     // Format dependency without version (preserving extras)
-    let new_dep_str = format_dependency_without_version(workspace_requirement);
+    let new_dep_str = format_dependency_without_version(&requirement);
 
     // Use the string's range for replacement
     let range = dep_str.range().into_lsp(line_index);
-- 
2.43.0


From d4f10b2512eb52d20cdf155bf43b6173deca510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:16 +0000
Subject: [PATCH 94/97] fix: a member that uses a workspace dependency keeps
 its environment marker

---
 .../tombi-extension-pyproject/src/code_action.rs       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/extensions/tombi-extension-pyproject/src/code_action.rs b/extensions/tombi-extension-pyproject/src/code_action.rs
index 8dd66e5..2e079ea 100644
--- a/extensions/tombi-extension-pyproject/src/code_action.rs
+++ b/extensions/tombi-extension-pyproject/src/code_action.rs
@@ -308,11 +308,19 @@ async fn update_dependency_to_latest_version_code_action(
 
 fn format_dependency_without_version(requirement: &Requirement<VerbatimUrl>) -> String {
     let name = requirement.name.to_string();
-    if requirement.extras.is_empty() {
+    let dependency = if requirement.extras.is_empty() {
         name
     } else {
         let extras: Vec<String> = requirement.extras.iter().map(|e| e.to_string()).collect();
         format!("{}[{}]", name, extras.join(","))
+    };
+    match requirement.marker.contents() {
+        Some(marker) => {
+            // The result is written as a basic string
+            let marker = marker.to_string().replace('"', "'");
+            format!("{dependency} ; {marker}")
+        }
+        None => dependency,
     }
 }
 
-- 
2.43.0


From bfde4e39d8cda7b849f89c5295cfb6e9f3115b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:27 +0000
Subject: [PATCH 95/97] fix: the place of a requirement added to an array of
 the workspace

---
 .../src/code_action.rs                        | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/extensions/tombi-extension-pyproject/src/code_action.rs b/extensions/tombi-extension-pyproject/src/code_action.rs
index 2e079ea..0cf144a 100644
--- a/extensions/tombi-extension-pyproject/src/code_action.rs
+++ b/extensions/tombi-extension-pyproject/src/code_action.rs
@@ -439,6 +439,17 @@ fn get_ast_array_from_document_tree(
     None
 }
 
+/// The ranges of the tokens of a value that are neither comments nor white space
+fn significant_ranges(value: &tombi_ast::ValueOrKeyValue) -> Vec<tombi_text::Range> {
+    value
+        .syntax()
+        .descendants_with_tokens()
+        .filter_map(|node_or_token| node_or_token.into_token())
+        .filter(|token| !token.text().starts_with('#') && !token.text().trim().is_empty())
+        .map(|token| token.range())
+        .collect()
+}
+
 /// Calculate insertion position and text for array insertion with comma handling
 /// Uses tombi_ast API to properly handle commas and formatting
 fn calculate_array_insertion(
@@ -467,14 +478,6 @@ fn calculate_array_insertion(
         };
     }
 
-    if insertion_index == 0 {
-        // Insert at the beginning
-        let (first_value, _) = values_with_comma.first()?;
-        let insert_pos = first_value.syntax().range().start;
-        let new_text = format!("{},\n", new_element);
-        return Some((insert_pos, new_text));
-    }
-
     if insertion_index >= values_with_comma.len() {
         // Insert at the end
         let (last_value, last_comma) = values_with_comma.last()?;
@@ -483,20 +486,17 @@ fn calculate_array_insertion(
             let new_text = format!("\n{}, ", new_element);
             return Some((insert_pos, new_text));
         } else {
-            let insert_pos = last_value.syntax().range().end;
+            // Before a trailing comment of the last value
+            let insert_pos = significant_ranges(last_value).last()?.end;
             let new_text = format!(", {}", new_element);
             return Some((insert_pos, new_text));
         }
     }
 
-    // Insert in the middle
-    let (target_value, target_comma) = values_with_comma.get(insertion_index)?;
-    let insert_pos = if let Some(target_comma) = target_comma {
-        target_comma.range().end
-    } else {
-        target_value.syntax().range().end
-    };
-    let new_text = format!("\n{},\n", new_element);
+    // Insert before the value at the insertion index
+    let (target_value, _) = values_with_comma.get(insertion_index)?;
+    let insert_pos = significant_ranges(target_value).first()?.start;
+    let new_text = format!("{},\n", new_element);
     Some((insert_pos, new_text))
 }
 
-- 
2.43.0


From f630d04c82d892dc247ad009d26ae7c7bc2b7418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:27 +0000
Subject: [PATCH 96/97] fix: values that are not requirements count when a
 requirement is added to an array

---
 extensions/tombi-extension-pyproject/src/code_action.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/extensions/tombi-extension-pyproject/src/code_action.rs b/extensions/tombi-extension-pyproject/src/code_action.rs
index 0cf144a..7f78d7c 100644
--- a/extensions/tombi-extension-pyproject/src/code_action.rs
+++ b/extensions/tombi-extension-pyproject/src/code_action.rs
@@ -624,11 +624,14 @@ fn generate_workspace_dependency_edit(
     // Get existing package names
     let existing_package_names: Vec<String> = deps_doc_array
         .iter()
-        .filter_map(|dep| {
+        .map(|dep| {
+            // Keep the index of values that are not requirements, such as `{ include-group = "a" }`
             if let tombi_document_tree::Value::String(dep_str) = dep {
-                parse_requirement(dep_str.value()).map(|req| req.name.to_string())
+                parse_requirement(dep_str.value())
+                    .map(|req| req.name.to_string())
+                    .unwrap_or_default()
             } else {
-                None
+                String::new()
             }
         })
         .collect();
-- 
2.43.0


From e9544d78c7f0a0ae34188cc09c172905a3e07546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:20 +0000
Subject: [PATCH 97/97] fix: the values of an array are those of its groups

---
 crates/tombi-ast/src/impls/array.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/tombi-ast/src/impls/array.rs b/crates/tombi-ast/src/impls/array.rs
index c120747..3dbb0ea 100644
--- a/crates/tombi-ast/src/impls/array.rs
+++ b/crates/tombi-ast/src/impls/array.rs
@@ -83,22 +83,17 @@ impl crate::Array {
 
     #[inline]
     pub fn value_or_key_values(&self) -> impl Iterator<Item = crate::ValueOrKeyValue> {
-        support::node::children(self.syntax())
+        self.value_or_key_values_with_comma()
+            .map(|(value_or_key_value, _)| value_or_key_value)
     }
 
     #[inline]
     pub fn value_or_key_values_with_comma(
         &self,
     ) -> impl Iterator<Item = (crate::ValueOrKeyValue, Option<crate::Comma>)> {
-        self.value_or_key_values()
-            .zip_longest(support::node::children::<crate::Comma>(self.syntax()))
-            .filter_map(|value_or_key_with_comma| match value_or_key_with_comma {
-                itertools::EitherOrBoth::Both(value_or_key, comma) => {
-                    Some((value_or_key, Some(comma)))
-                }
-                itertools::EitherOrBoth::Left(value_or_key) => Some((value_or_key, None)),
-                itertools::EitherOrBoth::Right(_) => None,
-            })
+        self.value_with_comma_groups()
+            .filter_map(DanglingCommentGroupOr::into_item_group)
+            .flat_map(ValueWithCommaGroup::into_value_or_key_values_with_comma)
     }
 
     #[inline]
-- 
2.43.0

