p("C01","A document is accepted exactly when it is valid TOML for its version",
 "For every text and each supported TOML version (v1.0.0, v1.1.0), parsing and linting without a schema report an error-level diagnostic if and only if the text is not a valid TOML document of that version. This covers syntax (keys, strings, escapes, numbers, date-times, arrays, inline tables, comments, newlines) as well as the rules about redefining keys and tables.",
 ["inputs"],"every text (documents built from the grammar, token- and character-level mutations of them) under both TOML versions",
 "Tests check a few hundred fixed snippets; the accepted language is infinite and an accepted-but-invalid or rejected-but-valid text is a specific lexical or table-redefinition combination.",
 [C+"tombi-lexer/src",C+"tombi-parser/src",C+"tombi-document-tree/src",C+"tombi-toml-text/src",C+"tombi-linter/src"],
 [("regex/cursor lexer",C+"tombi-lexer/src/lib.rs"),("event parser",C+"tombi-parser/src/parse.rs"),("document tree merge errors",C+"tombi-document-tree/src/value/table.rs"),("version rules",C+"tombi-linter/src/rule/inline_table_toml_version.rs")],
 ["tombi_linter::Linter::lint","tombi_parser::parse","toml-test decode binary"])
p("C02","Valid documents decode to the values the TOML specification gives them",
 "For every valid TOML document the document tree holds exactly the keys, nesting, array elements and typed scalar values (strings after escape processing, integers, floats, booleans, four date-time kinds) that the TOML specification assigns to the text. No key is lost, merged into the wrong table or given another type or value.",
 ["inputs"],"every valid TOML document of v1.0.0 or v1.1.0",
 "Tests compare a handful of fixed documents; quoting, escapes, dotted keys, header/array-of-tables interleavings and numeric notations combine without bound.",
 [C+"tombi-document-tree/src",C+"tombi-toml-text/src",C+"tombi-ast/src",C+"tombi-date-time/src",C+"tombi-document/src"],
 [("tree construction and merge",C+"tombi-document-tree/src/value/table.rs"),("string unescape",C+"tombi-toml-text/src"),("number and date-time conversion",C+"tombi-document-tree/src/value")],
 ["tombi_document_tree::IntoDocumentTreeAndErrors","toml-test decode binary","serde_tombi::from_str_async"])
p("C03","The syntax tree is lossless and every node's position is exact",
 "For every text, valid or not, the tokens of the parsed tree concatenated in order give back the source text byte for byte. Every token's and node's offset span and line/column range (columns count grapheme clusters) equal the ones computed directly from its place in the text, and a parent's span is exactly covered by its children.",
 ["inputs"],"every UTF-8 text, including invalid TOML, CRLF/CR/LF mixes, multi-byte and combining characters",
 "Position bookkeeping errors show up only for particular mixes of multi-byte text, line endings and error recovery that fixed snippets do not contain.",
 [C+"tombi-lexer/src",C+"tombi-parser/src",C+"tombi-rg-tree/src",C+"tombi-text/src"],
 [("lexed token joining",C+"tombi-parser/src/lexed.rs"),("green/red tree ranges",C+"tombi-rg-tree/src/cursor.rs"),("relative positions",C+"tombi-text/src/relative_position.rs")],
 ["tombi_parser::parse(..).syntax_node()"])
p("C04","No input text makes the parser, linter or formatter crash",
 "For every text, under both TOML versions and with or without a schema, parsing, building the document tree, linting and formatting terminate with a result or diagnostics and never panic or overflow the stack. Every diagnostic they return has a range that lies inside the document, with its start not after its end.",
 ["inputs"],"arbitrary UTF-8 texts: random, mutated TOML, deep nesting, truncated documents, comment-directive text",
 "Crashes need malformed or extreme inputs that example-based tests do not enumerate.",
 [C+"tombi-lexer/src",C+"tombi-parser/src",C+"tombi-document-tree/src",C+"tombi-linter/src",C+"tombi-validator/src",C+"tombi-formatter/src",C+"tombi-ast-editor/src"],
 [("recursion limit",C+"tombi-parser/src/parser.rs"),("error recovery",C+"tombi-parser/src/parse")],
 ["tombi_parser::parse","tombi_linter::Linter::lint","tombi_formatter::Formatter::format"])
p("C05","Formatting never changes the data of a document",
 "For every document the formatter accepts, every combination of format options and both TOML versions, the formatted text is valid TOML of the same version and decodes to the same data as the original. Without a schema and without order directives, array element order is unchanged too, and so is the key order of every table unless a header follows a header of one of its own sub-tables (formatting puts it first).",
 ["inputs","configurations"],"every syntactically valid document x every combination of format rules",
 "Fixed formatter tests cover chosen layouts; data loss comes from combinations of quoting, alignment, multi-line arrays, comments, dotted keys and options.",
 [C+"tombi-formatter/src",C+"tombi-ast-editor/src"],
 [("format implementations",C+"tombi-formatter/src/format"),("ast edits before formatting",C+"tombi-ast-editor/src")],
 ["tombi_formatter::Formatter::format"])
p("C06","Formatting is idempotent",
 "For every document the formatter accepts and every combination of format options, formatting the formatted text again with the same options returns it unchanged.",
 ["inputs","configurations"],"every syntactically valid document x every combination of format rules",
 "The tests check a fixed set of already-formatted texts; oscillation appears for particular mixes of widths, comments, trailing commas and line breaks.",
 [C+"tombi-formatter/src",C+"tombi-ast-editor/src"],
 [("format implementations",C+"tombi-formatter/src/format"),("trailing comma and width decisions",C+"tombi-formatter/src/format/value/array.rs")],
 ["tombi_formatter::Formatter::format"])
p("C07","Formatting keeps every comment, attached to the same item",
 "For every document the formatter accepts, without schema and under all format options, every comment of the original occurs in the output exactly once, with the same text apart from surrounding whitespace, and in the same relative order among comments and values. A comment at the end of a value's line stays at the end of that value's line, a comment above an item stays above it, and the lines of a block of comments keep their indentation relative to the first.",
 ["inputs","configurations"],"every document with comments in any position the grammar allows x format options",
 "Comment positions multiply with every construct (inside arrays, inline tables, between headers, at end of file); tests cover only some.",
 [C+"tombi-formatter/src/format/comment.rs",C+"tombi-formatter/src/format",C+"tombi-ast/src"],
 [("comment formatting",C+"tombi-formatter/src/format/comment.rs"),("dangling/leading/trailing comment collection",C+"tombi-ast/src")],
 ["tombi_formatter::Formatter::format"])
p("C08","Formatted output obeys the configured format rules",
 "For every accepted document, the output uses the configured line ending throughout (outside multi-line strings), ends with exactly one newline (empty stays empty), has no trailing whitespace outside multi-line strings, and is indented with the configured style and width. Spacing around =, commas, braces, brackets and trailing comments, blank-line limits, string quote style and date-time delimiter also follow the configured rules. An array, or in TOML 1.1 an inline table, without a comment inside, trailing comma or multi-line string, is on one line exactly if it is empty or its line fits the line width.",
 ["inputs","configurations"],"every accepted document x every format rule value",
 "Tests exercise each rule on one or two documents, not their combinations with nesting, comments and multi-line values.",
 [C+"tombi-formatter/src",C+"tombi-config/src/format.rs"],
 [("definitions from options",C+"tombi-formatter/src/formatter/definitions.rs"),("format implementations",C+"tombi-formatter/src/format")],
 ["tombi_formatter::Formatter::format"])
p("C09","Documents that do not parse or disable formatting are left alone",
 "For every document with a syntax error, formatting returns diagnostics and no text. For every document whose document directive disables formatting, formatting returns the source text byte for byte; a format.disabled directive placed anywhere else than the leading document-directive position has no such effect.",
 ["inputs"],"every invalid document; every document with a format-disabling directive",
 "The error set and the placement of directives are unbounded.",
 [C+"tombi-formatter/src/formatter.rs",C+"tombi-validator/src/comment_directive/document.rs"],
 [("early returns",C+"tombi-formatter/src/formatter.rs")],
 ["tombi_formatter::Formatter::format"])
p("C10","Schema- and directive-driven sorting is a correct stable reordering",
 "For every document and every schema or comment directive with key or array ordering rules (ascending, descending, version-sort, schema), formatting yields the requested order within each group and changes nothing but order: no key, value or comment is lost, duplicated or altered. Items separated into groups by blank lines and comments are sorted only inside their group, and formatting the result again changes nothing.",
 ["inputs","configurations"],"every document x ordering rule x grouping",
 "Fixed tests cover selected orders and layouts, not arbitrary mixes of keys, groups, comments, trailing commas and nested containers.",
 [C+"tombi-ast-editor/src",C+"tombi-version-sort/src",C+"tombi-x-keyword/src",C+"tombi-schema-store/src/schema"],
 [("array value ordering",C+"tombi-ast-editor/src/rule/array_values_order.rs"),("table key ordering",C+"tombi-ast-editor/src/rule/table_keys_order.rs"),("inline table ordering",C+"tombi-ast-editor/src/rule/inline_table_keys_order.rs")],
 ["tombi_formatter::Formatter::format"])
p("C11","Schema validation agrees with JSON Schema",
 "For every supported JSON Schema and every TOML document, with strict mode off, linting reports a validation error if and only if the document's data does not satisfy the schema under JSON Schema semantics. This covers type, enum, const, numeric, string, array and object keywords, the applicators (allOf, anyOf, oneOf, not, if/then/else, properties, patternProperties, additionalProperties, items, contains, dependent*, propertyNames, unevaluated*) and $ref in the supported dialects (Draft-07, 2019-09, 2020-12). One deviation is part of the design and of the repository's tests: keys named by dependentRequired, dependentSchemas or dependencies count as evaluated.",
 ["inputs","configurations"],"every schema built from the supported keywords x every document",
 "Keyword interaction (annotations through applicators, references, type unions) is combinatorial; tests fix a schema and a few documents.",
 [C+"tombi-validator/src",C+"tombi-schema-store/src/schema"],
 [("validators",C+"tombi-validator/src/validate"),("schema model",C+"tombi-schema-store/src/schema/semantic_schema.rs"),("reference resolution",C+"tombi-schema-store/src/schema/referable_schema.rs")],
 ["tombi_linter::Linter::lint with an associated schema"])
p("C12","Strict mode only closes open tables and follows its precedence",
 "With strict mode on, a table validated by a schema that lists properties and says nothing about additional keys reports unknown keys, and no other diagnostic changes compared with strict mode off; with combined schemas it never changes whether the document is rejected. Whether strict applies is decided by the first setting present of: document directive, sub-schema or root schema configuration, global configuration, default true.",
 ["inputs","configurations"],"every combination of the strict settings x schema x document",
 "The precedence table and its interaction with combined schemas are only sampled by tests.",
 [C+"tombi-schema-store/src/schema",C+"tombi-schema-store/src/store.rs",C+"tombi-validator/src/validate/table.rs"],
 [("strict resolution",C+"tombi-schema-store/src/schema/schema_context.rs"),("strict additional keys",C+"tombi-validator/src/validate/table.rs")],
 ["tombi_linter::Linter::lint"])
p("C13","Lint rule settings affect exactly the rule and place they name",
 "A comment directive that disables a lint rule removes exactly that rule's diagnostics for the value it is attached to, and leaves every other diagnostic unchanged; one that disables a validation rule that does not fire is reported as unused. A deprecated value is only reported as such when nothing else is reported about it. Setting a lint rule's level in the configuration to off, warn or error only drops that rule's diagnostics or changes their level.",
 ["inputs","configurations"],"every document x rule x placement and level",
 "Rules, placements and container kinds multiply; tests take one example per rule.",
 [C+"tombi-linter/src",C+"tombi-validator/src",C+"tombi-comment-directive/src"],
 [("directive rules",C+"tombi-comment-directive/src/value"),("level application",C+"tombi-validator/src/diagnostic.rs"),("linter rules",C+"tombi-linter/src/rule")],
 ["tombi_linter::Linter::lint"])
p("C14","Configuration discovery and per-file overrides follow the documented order",
 "For every directory layout, the configuration used for a file is the nearest one walking up from it, chosen in each directory in the order .tombi.toml, tombi.toml, .config/tombi.toml, pyproject.toml with a [tool.tombi] table. Where there is none, the user's configuration applies ($XDG_CONFIG_HOME/tombi/config.toml, then ~/.config/tombi/config.toml), else the defaults; a configuration file that cannot be read or is not valid is skipped. For every list of [[overrides]] a file gets the base format and lint rules with the fields set by the first matching override laid over them (that override may instead disable the tool for the file), where an override matches if at least one include pattern and no exclude pattern matches the file's path relative to the directory of the configuration.",
 ["inputs","configurations"],"every small directory tree with configuration files; every list of overrides and file path",
 "Layouts and pattern/override combinations are unbounded; tests fix a few.",
 ["rust/serde_tombi/src/config.rs",C+"tombi-config/src",C+"tombi-glob/src"],
 [("config search","rust/serde_tombi/src/config.rs"),("override merge",C+"tombi-config/src/lib.rs"),("pattern match",C+"tombi-glob/src/lib.rs")],
 ["serde_tombi::config::load_with_path_and_level","tombi_glob::get_format_options","tombi_glob::get_lint_options"])
p("C15","The TOML version in effect follows the documented precedence",
 "For every document the version used by the linter and the formatter is the first one present of: the document directive's toml-version, the [[schemas]] entry's toml-version, the schema's x-tombi-toml-version, the configuration's toml-version, v1.0.0. Features of v1.1.0 are then accepted exactly when that version is v1.1.0.",
 ["inputs","configurations"],"every combination of present/absent version settings x version-dependent document",
 "The full product of sources is only sampled by tests.",
 [C+"tombi-linter/src/linter.rs",C+"tombi-formatter/src/formatter.rs",C+"tombi-schema-store/src/schema/source_schema.rs"],
 [("version resolution",C+"tombi-linter/src/linter.rs")],
 ["tombi_linter::Linter::lint","tombi_formatter::Formatter::format"])
p("C16","Serialising and deserialising with serde_tombi round-trips",
 "For every serialisable value tree (maps, sequences, strings with any characters, integers, floats, booleans, options, enums, date-times), the text serde_tombi produces is valid TOML and deserialises to an equal value. Deserialising any valid TOML document yields the values the specification assigns.",
 ["inputs"],"every value of a family of serde types covering all TOML shapes; every valid document",
 "Tests serialise a few fixed structs; strings with control characters, nested arrays of tables and empty containers are unbounded.",
 ["rust/serde_tombi/src",C+"tombi-document/src",C+"tombi-toml-text/src"],
 [("serializer","rust/serde_tombi/src/ser.rs"),("deserializer","rust/serde_tombi/src/de.rs")],
 ["serde_tombi::to_string","serde_tombi::from_str_async"])
p("C17","The JSON schema reader accepts exactly JSON and reads it faithfully",
 "For every text, the position-tracking JSON parser used for schemas accepts it if it is valid JSON (duplicate keys, lone surrogates and nesting deeper than 128 aside) and rejects it if it is not (a trailing comma aside), yields the same value as the JSON specification gives (64-bit integers exactly, other numbers as the nearest double), and assigns every value and key a range that covers exactly its text.",
 ["inputs"],"every text: generated JSON with any escapes, numbers, nesting and whitespace, and mutations of it",
 "Tests hold a few documents; escapes, surrogates and number forms are unbounded.",
 [C+"tombi-json/src",C+"tombi-json-lexer/src",C+"tombi-json-value/src"],
 [("json lexer",C+"tombi-json-lexer/src/lib.rs"),("json parser",C+"tombi-json/src")],
 ["tombi_json::ValueNode::from_str"])
p("C18","Version sort is a consistent total preorder with natural number order",
 "For all strings, version sort is reflexive, antisymmetric up to equality, and transitive, so sorting never depends on the input order. Embedded numbers of any length compare by value (equal values: more leading zeros first), at the same place version operators sort first, hyphens and underscores next and text and numbers last (a number and a text compare as plain text), and strings without digits, hyphens, underscores and operators compare as plain text.",
 ["inputs"],"all pairs and triples of strings over digits, letters, separators and operators",
 "Consistency quantifies over all triples; tests assert a few pairs.",
 [C+"tombi-version-sort/src/lib.rs"],[("chunk comparison",C+"tombi-version-sort/src/lib.rs")],
 ["tombi_version_sort::version_sort"])
p("C19","Date-times parse exactly the valid values and print back the same value",
 "For every text, the date, time, local date-time and offset date-time parsers accept exactly the valid calendar values in TOML notation, and printing a parsed value and parsing it again gives an equal value with the same fields and precision.",
 ["inputs"],"all date-time texts, valid and near-valid, including leap days, fractions, leap seconds and offsets",
 "The calendar and format space cannot be listed by example tests.",
 [C+"tombi-date-time/src"],[("parsers and Display",C+"tombi-date-time/src")],
 ["tombi_date_time::{LocalDate,LocalTime,LocalDateTime,OffsetDateTime}"])
p("C20","Editor positions and text offsets convert without error",
 "For every text, converting a character position to an editor (LSP) position and back under each position encoding is the identity, editor columns count the encoding's code units, and every line ending is recognised the same way everywhere. Span and range operations (contain, intersect, cover) agree with set semantics on offsets.",
 ["inputs"],"all texts with multi-byte, astral and combining characters and LF/CRLF/CR line ends; all positions",
 "Tests use a few strings; mixes of surrogate pairs, grapheme clusters and CRLF are unbounded.",
 [C+"tombi-text/src"],[("line index",C+"tombi-text/src/features/lsp/line_index.rs"),("conversions",C+"tombi-text/src/features/lsp")],
 ["tombi_text::LineIndex","FromLsp/IntoLsp"])
p("C21","The server's view of an open document equals the client's after any edits",
 "For every sequence of open, change, save and close notifications and requests (formatting among them, whether or not the client applies its edits) sent by a conforming client, what the language server reports for a document equals what a fresh server reports for the client's current text. The server announces full synchronisation, so a change holds whole texts, of which the last counts.",
 ["histories","inputs"],"all edit histories over all texts",
 "Tests send single edits; divergence needs a specific sequence of changes and requests.",
 [C+"tombi-lsp/src/handler/did_change.rs",C+"tombi-lsp/src/document.rs",C+"tombi-text/src/features/lsp/line_index.rs"],
 [("incremental change",C+"tombi-lsp/src/handler/did_change.rs"),("document source",C+"tombi-lsp/src/document.rs")],
 ["tombi_lsp::Backend textDocument/didChange + formatting/documentSymbol/diagnostics"])
p("C22","Language-server requests never fail, wherever the cursor is",
 "For every document text, valid or half-typed, with or without a schema, and every cursor position, the language server answers hover, completion, definition, type definition, references, code action, document link, symbols, folding, inlay hint, semantic tokens, formatting and diagnostics without crashing. Every range in an answer about the document lies inside the document.",
 ["inputs","histories"],"all texts x all positions x all requests",
 "Cursor positions in broken documents are unbounded; tests fix a few.",
 [C+"tombi-lsp/src","extensions"],[("handlers",C+"tombi-lsp/src/handler")],
 ["tombi_lsp::Backend requests"])
p("C23","Accepting a completion gives a valid, schema-conforming document",
 "For every document that is valid apart from the line being typed, and every schema with nested tables, arrays and applicators, at a position where a key, a value or an array element is being typed: accepting any offered item (adding a value after a key item) gives a document that parses, sets the key or value in the table of the cursor, leaves all other data unchanged and, for enum, const and boolean values, is accepted by the schema. Every key that the schema names and that is missing there is offered, no key that already has a plain value is offered again, and for enum, const and boolean schemas every allowed value is offered.",
 ["inputs"],"all documents x schemas x positions x offered items",
 "Each offered edit in each context would have to be applied; tests compare labels in fixed contexts.",
 [C+"tombi-lsp/src/completion"],[("completion edits",C+"tombi-extension/src/completion.rs")],
 ["textDocument/completion"])
p("C24","Code actions preserve the document's data",
 "For every valid document and position, applying any offered conversion between dotted keys and inline tables yields a valid document that decodes to the same data.",
 ["inputs"],"all documents x positions x offered actions",
 "Tests convert fixed snippets.",
 [C+"tombi-lsp/src/code_action.rs",C+"tombi-lsp/src/handler/code_action.rs"],[("edits",C+"tombi-lsp/src/handler/code_action.rs")],
 ["textDocument/codeAction"])
p("C25","Formatting in the editor gives what formatting on the command line gives",
 "For every document and configuration, applying the text edits returned by the language server's formatting request to the open text gives exactly the text the formatter returns, and no edits are returned when it returns an error or the text is already formatted.",
 ["inputs","configurations"],"all documents with any line endings and characters x format options",
 "Edit computation is a diff over arbitrary texts.",
 [C+"tombi-lsp/src/handler/formatting.rs"],[("diff to edits",C+"tombi-lsp/src/handler/formatting.rs")],
 ["textDocument/formatting"])
p("C26","Semantic tokens, symbols and folding describe the document's structure",
 "For every document, semantic tokens are in document order, do not overlap and stay within their lines; document symbols are nested and contain exactly the keys of the document, each with the kind of its value; folding ranges start no later than they end and lie in the document. In a valid document each token has the type of the key, value or comment it covers, and the tables, multi-line values and blocks of comments fold from their first to their last character.",
 ["inputs"],"all texts, valid or not",
 "Encodings are relative; a single misplaced multi-line or multi-byte token corrupts everything after it.",
 [C+"tombi-lsp/src/semantic_tokens",C+"tombi-lsp/src/handler/document_symbol.rs",C+"tombi-lsp/src/handler/folding_range.rs"],
 [("token builder",C+"tombi-lsp/src/semantic_tokens/builder.rs")],
 ["textDocument/semanticTokens/full","textDocument/documentSymbol","textDocument/foldingRange"])
p("C27","The command line tool reports and rewrites exactly what it should",
 "For every set of files, `tombi format` rewrites exactly the files whose formatted text differs, never touches files with errors, and exits non-zero if any file failed; with --check it modifies nothing and exits non-zero exactly if some file would change. `tombi lint` exits non-zero exactly if some file has an error (or, with --error-on-warnings, a warning), and with `-` no file is touched and `format` writes the formatted text, or the text itself if it cannot be or is not to be formatted, only to standard output.",
 ["inputs","configurations"],"all sets of valid, unformatted, warning and erroneous files x command line flags",
 "Exit status and file effects depend on combinations of files and flags.",
 ["rust/tombi-cli/src"],[("format command","rust/tombi-cli/src/app/command/format.rs"),("lint command","rust/tombi-cli/src/app/command/lint.rs")],
 ["tombi binary: exit status, stdout, files"])
p("C28","File discovery selects exactly the files the patterns ask for",
 "For every directory tree and every include/exclude configuration, the discovered set is exactly the files that match some include pattern, no exclude pattern, are not inside a version-control metadata directory, and, when ignore files are respected, are not ignored.",
 ["inputs","configurations"],"all small directory trees x pattern lists x ignore files",
 "Glob and tree combinations are unbounded.",
 [C+"tombi-glob/src"],[("walk",C+"tombi-glob/src/walk_dir.rs"),("patterns",C+"tombi-glob/src/pattern.rs"),("search",C+"tombi-glob/src/file_search.rs")],
 ["tombi_glob::WalkDir","tombi_glob::FileSearch"])
p("C29","Editing a syntax tree changes exactly what was asked",
 "For every tree and every sequence of edits (insert, delete, replace, splice, detach) on its mutable copy, the resulting text equals the result of the same edits on a plain list-of-children model, all positions and parent/sibling links stay consistent, and the original immutable tree is unchanged.",
 ["histories"],"all edit sequences on all small trees",
 "Link and offset maintenance depends on the order of edits and on which handles are alive.",
 [C+"tombi-rg-tree/src"],[("mutable cursor",C+"tombi-rg-tree/src/cursor.rs"),("green splice",C+"tombi-rg-tree/src/green")],
 ["tombi_rg_tree API"])
p("C30","The cache never changes results and honours its lifetime",
 "For every history of cache writes, ageing and configuration, a fetch of a schema or catalog returns cached content only if it is not older than the configured lifetime, never when caching is off, and returns exactly the bytes last stored for that address. Offline mode never contacts the network and uses any stored copy.",
 ["histories","configurations","fault_sequences"],"histories of store, age, fail and read x cache options",
 "Needs time, faults and option combinations that unit tests do not set up.",
 [C+"tombi-cache/src",C+"tombi-schema-store/src/store.rs"],[("ttl",C+"tombi-cache/src/lib.rs"),("fetch with fallback",C+"tombi-schema-store/src/store.rs")],
 ["tombi_cache::read_from_cache","SchemaStore::try_get_document_schema with a recording HttpClient"])
p("C33","Order lint rules fire exactly on out-of-order keys and tables",
 "For every document, the dotted-keys-out-of-order and tables-out-of-order rules report exactly the dotted keys or tables whose group is interrupted by others, and never a document whose related keys and tables are contiguous. Keys of one body (headers of the document) are related when their first key, decoded, is the same.",
 ["inputs"],"all documents with dotted keys, tables and arrays of tables",
 "Interleavings are combinatorial.",
 [C+"tombi-linter/src/rule"],[("dotted keys rule",C+"tombi-linter/src/rule/dotted_keys_out_of_order.rs"),("tables rule",C+"tombi-linter/src/rule/tables_out_of_order.rs")],
 ["tombi_linter::Linter::lint"])
p("C35","Each file is validated by the schema its configuration selects",
 "For every configuration with [[schemas]] and catalogs, the schema applied to a file is the one named by its #:schema directive, else the first [[schemas]] entry without a root whose include matches and exclude does not, else the first catalog entry that matches; entries with a root apply to exactly the values their root path selects, the most specific root first, and everything below them. The TOML version is that of the document directive, else of the schema entry, else of the schema, else of the configuration; the level of deprecation diagnostics is that of the schema's entry.",
 ["configurations","inputs"],"all lists of schema entries, patterns, roots and file paths",
 "Precedence among patterns, roots and directives is combinatorial.",
 [C+"tombi-schema-store/src/store.rs",C+"tombi-schema-store/src/schema/source_schema.rs"],[("source schema resolution",C+"tombi-schema-store/src/store.rs")],
 ["tombi_linter::Linter::lint with SchemaStore::load_config"])
p("C38","Results depend only on the document, its schema and its configuration",
 "For every sequence of lint and format operations sharing one schema store, in any order and concurrently, each result equals the result of the same operation alone with a fresh store. After a local schema file changes on disk, later results are those of the new content.",
 ["histories","schedules"],"all operation sequences over sets of documents and schemas, sequential and concurrent",
 "Shared caches only leak state in particular orders.",
 [C+"tombi-schema-store/src/store.rs",C+"tombi-schema-store/src/schema"],[("document schema cache",C+"tombi-schema-store/src/store.rs")],
 ["SchemaStore shared by Linter and Formatter"])
p("C39","Hovering names the key and value under the cursor",
 "For every valid document and every position on a key or a scalar value, hovering answers with the full path of that key or value (including indices in arrays and arrays of tables), the type of the value, and a range that holds the position; where the schema of the file has a title or description for that path, exactly these are shown, and those of no other key, except that what has none of its own may show those of an array around it.",
 ["inputs","configurations"],"every key and value of every valid document, with and without a schema, x position encodings",
 "Paths through dotted keys, headers, arrays of tables and inline tables multiply; tests hover over a few keys of well-known files.",
 [C+"tombi-lsp/src/hover.rs",C+"tombi-lsp/src/hover",C+"tombi-lsp/src/handler/hover.rs"],
 [("keys under the cursor",C+"tombi-lsp/src/handler/hover.rs"),("content",C+"tombi-lsp/src/hover/value")],
 ["textDocument/hover"])
p("C40","Going to the type definition leads to the schema of the key",
 "For every valid document and every key or scalar value whose path is described by the schema of the file, going to its type definition leads to the schema file, to exactly the place that describes that path (the name of the property or the schema of the element); where the schema says nothing about the path it leads nowhere or to what describes it by a pattern or as an additional property.",
 ["inputs","configurations"],"every key and value of every valid document with a schema of nested tables, arrays, patterns and additional properties",
 "Paths and the positions of their schemas multiply; tests look only at which file is opened.",
 [C+"tombi-lsp/src/goto_type_definition.rs",C+"tombi-lsp/src/goto_type_definition",C+"tombi-json/src"],
 [("definition of a path",C+"tombi-lsp/src/goto_type_definition/type_definition_source.rs"),("positions in the schema",C+"tombi-schema-store/src/schema")],
 ["textDocument/typeDefinition"])
p("C41","Navigation in a workspace leads where its manifests point",
 "In every Cargo workspace, going to a definition or declaration and finding references follow the documented navigation list and what Cargo means: a dependency leads to the package it resolves to by path or through the workspace, or to its workspace entry; a feature string leads to the feature or optional dependency it turns on; members lead to the packages their patterns select without those excluded; references of a package, feature, optional dependency or workspace entry are exactly its uses in the workspace. In the same way, in every uv workspace of pyproject.toml files a dependency leads to the project that its source in tool.uv.sources names by path or through the workspace, members (less those excluded) lead to their projects, dependency groups to their definitions and project names and groups to their uses.",
 ["inputs","histories"],"every place of every manifest of a Cargo or uv workspace of several packages",
 "What a place means depends on several manifests at once (renames, inheritance, relative paths, targets, exclusions); tests look at single hand-made workspaces.",
 ["extensions/tombi-extension-cargo/src","extensions/tombi-extension-pyproject/src",C+"tombi-lsp/src/handler/goto_definition.rs",C+"tombi-lsp/src/handler/references.rs"],
 [("definitions","extensions/tombi-extension-cargo/src/workspace.rs"),("features","extensions/tombi-extension-cargo/src/feature_navigation.rs"),("references","extensions/tombi-extension-cargo/src/references.rs")],
 ["textDocument/definition","textDocument/declaration","textDocument/references"])
p("C42","The code actions of a workspace do to its manifests what they say",
 "In every Cargo workspace and every uv workspace, each code action offered for a dependency or a package field applies cleanly to the manifests it edits and leaves them valid: a field or dependency inherited from the workspace becomes a workspace entry with its other settings (features, default-features, optional; for pyproject.toml its extras and environment marker) kept and only the version gone; a dependency added to the workspace appears there with the member's version and settings, in sorted place if the others are sorted, and is inherited in the member; nothing else of either manifest changes and no comment outside of the replaced value is lost. An action is about the entry the cursor is at, is not offered where it makes no sense (already inherited, not in the workspace, already in the workspace, by path) and is offered for every entry it documents.",
 ["inputs","configurations"],"every entry of every pair of workspace and member manifest, in every notation of TOML",
 "Notation (inline, dotted, table, comments, trailing commas), order and settings combine, and two files change at once; tests look at a few hand-made pairs.",
 ["extensions/tombi-extension-cargo/src/code_action.rs","extensions/tombi-extension-pyproject/src/code_action.rs",C+"tombi-lsp/src/handler/code_action.rs"],
 [("Cargo","extensions/tombi-extension-cargo/src/code_action.rs"),("pyproject","extensions/tombi-extension-pyproject/src/code_action.rs")],
 ["textDocument/codeAction"])
