# property -> (technique, level_note)
CHECKS = {
 "C01": ("differential property-based testing against an independent reference parser", "Generated valid documents, mutated documents and single scalars, both versions; the reference parser (cross-checked with Python's tomllib) is trusted. Cases the specification leaves open are skipped and counted."),
 "C02": ("differential property-based testing against an independent reference parser", "Decoded document trees of generated valid documents are compared value by value with the reference parser's."),
 "C03": ("property-based testing: round-trip and recomputation oracle over generated texts", "Token texts, spans and line/column ranges are recomputed from the text alone for valid, mutated and arbitrary texts."),
 "C04": ("fuzzing with structured, mutated and arbitrary texts; panic, hang, stack and range oracle", "Parser, document tree, linter and formatter run in-process on generated texts, truncations, directives and deep nesting; a crash of the process is caught by a supervisor."),
 "C05": ("property-based testing: formatting preserves the reference parser's data", "Random documents, values and directives x random subsets of all format rules."),
 "C06": ("property-based testing: idempotence", "Random documents, values and directives x random subsets of all format rules; three known findings are listed."),
 "C07": ("property-based testing: comment/token sequence and attachment preserved", "Comments are compared as a set, in sequence with all tokens, and by the item they trail or precede."),
 "C08": ("property-based testing: validity predicate over every pair of output tokens", "Every gap between tokens, every line start, line ending, blank-line run, quote, delimiter, alignment and width of the output is checked, and whether each array and inline table is on one line against the options."),
 "C09": ("property-based testing: metamorphic relation and identity oracle", "Broken texts must give diagnostics only; disabling directives must give identity; look-alike or misplaced directives must give the result of a neutral comment."),
 "C10": ("model-based property testing: a reference sorter over a model of the document", "Random documents with groups, comments, nested containers and headers x random comment directives or a random schema with order keywords; every token and comment of the output must be where the reference sorter puts it, and formatting again must change nothing."),
 "C11": ("differential property-based testing against an independent JSON Schema evaluator", "Random schemas in three dialects (applicators, conditionals, unevaluated*, references by pointer, anchor, document and recursion) and documents generated from them; four known findings (keywords beside $ref, date-times against untyped schemas) are listed and their inputs not generated."),
 "C12": ("model-based and metamorphic property testing of strict mode", "Random schemas without applicators: exactly the unknown keys of open tables are reported in addition; with applicators the verdict must not change; every combination of directive, sub-schema, root and global settings in generated configurations against a reference resolution."),
 "C13": ("model-based property testing: reference expectation of every diagnostic", "Random levels of the order and key rules, and random directives on values, arrays, tables and keys with schemas that break chosen rules; the exact multiset of (line, rule) is compared."),
 "C16": ("property-based testing: round trip through serde_tombi, with the text judged by an independent reference parser", "Random value trees, structs covering all serde shapes, valid documents and integer ranges; text is parsed by the reference parser and by serde_tombi."),
 "C17": ("differential property-based testing against an independent reference JSON reader", "Generated, mutated and token-soup JSON; verdict, value, key and every range are compared with a reader cross-checked against serde_json on every case."),
 "C18": ("property-based testing: order laws over generated families of strings, and a reference rule for numbers, operators and plain text", "All pairs and triples of families that share much of their text; numbers up to 80 digits."),
 "C19": ("differential property-based testing against a reference date-time reader, and print/parse round trip", "Valid, near-valid and mutated texts, and values built from fields, through all four types."),
 "C20": ("property-based testing: recomputation oracle and round trip over every position; model of spans as sets", "Every position of generated texts under UTF-8, UTF-16 and UTF-32; spans and ranges are compared with explicit sets."),
 "C33": ("model-based property testing against a reference grouping", "Random interleavings of dotted keys, inline tables and headers in every spelling; exactly the items of interrupted groups must be reported, once, at the default level."),
 "C35": ("model-based property testing against a reference resolution", "Random lists of schema entries (includes, excludes, roots with wildcards and quoted keys, levels, versions), catalogs, #:schema and file paths; marks in every table tell which schema, strict setting and level applied."),
 "C14": ("model-based property testing against a reference search and merge", "Random directory trees with valid, broken, foreign, linked and misplaced configuration files at project and user level; random base rules and lists of overrides over every rule, compared field by field with a reference merge and glob matcher."),
 "C15": ("property-based testing against a reference precedence model", "Random worlds of schemas, [[schemas]] entries, catalogs, directives and configurations in which every place may name a version, with documents that use one feature of v1.1.0; linter, formatter (where a trailing comma shows the version) and language server (the version it reports and its diagnostics)."),
 "C21": ("stateful property-based testing against a fresh server", "Random histories of open, change (one or several whole texts), save, close, formatting that the client applies or drops, and requests in between, over one or two documents and three position encodings; afterwards symbols, folding, tokens, diagnostics, version, links and six requests at three positions must equal those of a server that only opened the final texts."),
 "C22": ("fuzzing with structure-aware generators and range invariants", "Random documents (plain, under a random schema, Cargo.toml, pyproject.toml, tombi.toml), whole or with random edits, with and without schema; every request at token boundaries, inside tokens and outside the document; any panic, error, answer that takes over 60 s and any range outside the document is a violation."),
 "C23": ("model-based property testing of the language server", "Random schemas of nested tables, arrays, enums, constants and applicators, documents of sections with a line being typed (keys, dotted keys, inline tables, values, strings, elements, begun words); every item offered is accepted like a client does and the result is judged by the reference parser and the model of the schema, which also says which keys and values must be offered."),
 "C24": ("metamorphic property-based testing", "Random valid documents of dotted keys, headers, inline tables, arrays and comments with keys that need quotes; code actions are asked for at every position, and each conversion offered is applied and must decode to the same data by the reference parser."),
 "C25": ("differential property-based testing", "Random documents and configurations with overrides; the edits of the formatting request are applied like a client does (three position encodings) and compared with the formatter's text."),
 "C26": ("property-based testing of invariants against a reference parser", "Random documents; tokens in order, inside their lines, without overlap, covering every letter of a valid document and with the type of what they cover; symbols nested and equal to the reference parser's tree with its kinds; folding ranges in the document, from first to last character of every table, array, inline table, multi-line string and block of comments."),
 "C38": ("stateful property-based testing: histories over a shared store against a fresh store per operation", "Random sets of schema files that refer to each other, documents and histories of lint and format operations, one after the other or at the same time on several threads, between which files are rewritten, removed and put back; every result must be that of the same operation with a store of its own."),
 "C27": ("model-based property testing of the built binary over random workspaces and command lines", "Random sets of valid, unformatted, warning, erroneous and non-UTF-8 files, configurations with exclusions, overrides, schemas and mistakes, and command lines run the real executable in a scratch directory; exit status, standard output, summary, the bytes and times of every file are compared with what the library says of each text."),
 "C28": ("model-based property testing against a reference of globs and ignore files", "Random directory trees with hidden, metadata and linked directories, ignore files inside and above the root, .ignore and info/exclude files, a user's global ignore file that must not count, pattern lists and switches; the walk, the search for files, directories and patterns from several working directories, and the single-file verdict are compared with the model."),
 "C30": ("stateful model-based property testing with faults and time", "Random histories of serving, failing, ageing, breaking, storing and refreshing over addresses that differ in one part, and fetches of schemas, catalogs and metadata under random options and environments; a map of what is stored decides every result and every request."),
 "C29": ("stateful model-based property testing against lists of children", "Random trees (with and without shared subtrees) and histories of holding, dropping, detaching, splicing (moving within and across trees), new trees and copies; after every step the whole forest and every held handle (text, span, range, index, parent, siblings, children, tokens at every offset) is compared with the model, at the end the original immutable tree too."),
 "C39": ("model-based property testing against a reference parser and a generated schema", "Random valid documents, and schemas made for them whose every place may have its own title and description; every key and scalar is hovered at a random position; path, type, title, description and range must be those of the reference."),
 "C40": ("model-based property testing against a reference parser and a generated schema", "Random valid documents and schemas made for them; for every key and scalar the answer must be the place in the schema's text that describes its path, found by the reference."),
 "C41": ("model-based property testing of generated workspaces", "Random Cargo and uv workspaces written to a scratch directory; at every place of a manifest the locations answered for definition, declaration and references must be the ones a model of the workspace gives."),
 "C42": ("model-based property testing of generated workspaces", "Random Cargo and uv workspaces (root and member manifests in every notation); each action offered at each key and value is applied to the texts, and a reference parser's data of both files must be what a model of the action says; the model also says which actions must be offered."),
}
REASON = "not built yet: the property is listed, but no check decides it at this commit"
