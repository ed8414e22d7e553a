FIXED = []
OPEN = []
def fx(property, id, fix, what, **input):
    FIXED.append(dict(property=property, id=id, fix=fix, what=what, input=input))
def op(property, id, sig, what, **input):
    # in C06, C28 and C39 the check recognises these shapes in generated cases; elsewhere they are not generated
    OPEN.append(dict(property=property, id=id, sig=sig, what=what, generated=property in ("C06", "C28", "C39") or id == "O13-date-time-untyped", input=input))
V10, V11 = "v1.0.0", "v1.1.0"
fx("C01","F01-float-exp","accept floats with an uppercase exponent after a zero integer part","`a = 0E1` was rejected",doc="a = 0E1\n",version=V10)
fx("C01","F02-escaped-backslash","an escaped backslash does not escape the quotes that close a multi-line basic string",'`a = """x\\\\"""` was rejected',doc='a = """x\\\\"""\n',version=V10)
fx("C01","F03-unicode-escape","reject unicode escapes whose digits are not all hexadecimal",'`a = "\\u+041"` was accepted',doc='a = "\\u+041"\n',version=V10)
fx("C02","F04-ml-first-newline","trim exactly one newline after the opening delimiter of a multi-line string","all newlines after the opening delimiter of a multi-line string were dropped",doc='a = """\n\n\nx"""\n',version=V10)
fx("C01","F05-line-continuation","only TOML whitespace and line endings continue a line in a multi-line basic string","a backslash before a no-break space was accepted as a line continuation",doc='a = """x\\\u00a0\n y"""\n',version=V10)
fx("C01","F06-comment-control","reject control characters in comments between groups of key-values and values","a NUL in a dangling comment was accepted",doc="a= 1\n#\0 note\n",version=V10)
fx("C01","F07-parent-aot","find the parent array of tables of a header behind other tables","`[[a]] [[b]] [a.a]` was rejected",doc="[[a]]\n[[b]]\n[a.a]\n",version=V10)
fx("C01","F08-extend-header-table","dotted keys and inline tables cannot extend a table defined by a header","a dotted key extending a table defined by a header was accepted",doc="[b.b.c]\n['b'.'b']\nc.a = 1\n",version=V10)
fx("C01","F09-previous-element","arrays of tables of a previous element are not parents of a header","`[a.b.a]` in a new element of [[a]] was taken for the previous element's [[a.b]]",doc="[[a]]\n[[a.b]]\n[[a]]\n[a.b.a]\n",version=V10)
fx("C04","F10-columns","count columns of tokens in grapheme clusters like the syntax tree","a diagnostic after combining characters had a range outside the document",doc='a = "e\u0301e\u0301e\u0301" b\n',version=V10)
fx("C04","F11-float-key-space","keep the whitespace before a dotted key that looks like a float","a dotted key that looks like a float after a tab made the parser panic",doc="\t1.5 = 1\n",version=V10)
fx("C01","F12-date-like-key","accept bare keys that start like a date","`1979-05-27a = 1` was rejected",doc="1979-05-27a = 1\n",version=V10)
fx("C01","F13-fraction-seconds","fractional seconds need seconds","a time with a fraction but no seconds was accepted in v1.1.0",doc="a = 0001-01-01T00:00.0Z\n",version=V11)
fx("C01","F14-comma-after-comment","accept a comma after comments followed by a blank line","a comma after a comment and a blank line was rejected",doc="a = [\n1\n# c\n\n,\n2]\n",version=V10)
fx("C04","F15-nested-format","formatting nested arrays and inline tables does not take exponential time","formatting 25 nested arrays did not end",doc="a = "+"["*25+"1"+"]"*25+"\n",version=V10)
fx("C04","F16-schema-directive-columns","count columns of schema directives in grapheme clusters from the start of the comment","the diagnostic of a schema directive with multi-byte characters had a range outside the document",doc='#:schema #:tombi \u00e9 = "\u65e5\u672c"\na = 1\n',version=V10)
fx("C04","F17-dotted-depth","dotted keys count towards the recursion limit","a dotted key of thousands of parts overflowed the stack of the linter",doc="a."*30000+"b = 1\n",version=V10)

fx("C06","F18-section-comment","keep a blank line between a comment that ends a section and the next header","with table-blank-lines 0 the comment that ends a section was attached to the next header",doc="a = 1\n\n# note\n\n[b]\n",version=V10,rules={"table-blank-lines":0})
fx("C06","F19-align-keys","align equals signs by the formatted keys","the alignment width counted the spaces around dots that formatting removes",doc='b."" .a = true\na = 1\n',version=V10,rules={"key-value-equals-sign-alignment":True})
fx("C04","F20-incomplete-directive","do not read the values of a comment directive whose document tree has errors","a comment directive with an invalid string made the linter panic",doc='# tombi: format.rules.array-values-order = "\\uascending"\na = 1\n',version=V10)
fx("C07","F21-lost-comment","keep the trailing comment of the last value when sorting drops its comma","the trailing comment of a key-value that sorting moved to the end of an inline table was lost",doc='a = {\n x.y = 1, z=1 # note\n, x.z = 1\n}\n',version=V11,rules={})
fx("C08","F22-indent-overflow","the width of a deep indentation does not overflow","an indentation of 256 columns or more overflowed the counter of columns",doc="a = [\n[\n1,\n],\n]\n",version=V10,rules={"indent-width":200})
fx("C17","F23-json-leading-zero","reject JSON floats with leading zeros","`01.5` was accepted as a number",doc="01.5")
fx("C17","F24-json-cr","accept a lone carriage return as JSON whitespace","`[1,\\r2]` was rejected",doc="[1,\r2]")
fx("C17","F25-json-columns","count columns of JSON tokens in grapheme clusters","the range after a string with a combining character was off by one",doc='["e\u0301", 1]')
fx("C17","F26-json-integers","read JSON numbers without losing precision or range","9223372036854775806 was read as 9223372036854775807",doc="9223372036854775806")
fx("C17","F27-json-huge","read JSON numbers without losing precision or range","1e999 was read as 0",doc="1e999")
fx("C18","F28-long-numbers","version sort compares numbers of any length by value","a number longer than 64 bits ended the comparison, so `99999999999999999999` sorted before `1`",prefix="v",n1="99999999999999999999",n2="1",s1="",s2="")
fx("C16","F29-escapes","only write escapes that TOML has in basic strings","NUL was written as the escape \\0, which TOML does not have",doc='a = "\\u0000"\n')
fx("C16","F30-serialize-text","serialize strings, keys, floats and nested arrays and tables as the TOML that means them","a string with a quote made the serializer panic; nested arrays, empty arrays and tables in arrays of tables were lost or misplaced; 1.0 became 1",doc='a = "\\"q\\""\nb = [[1], []]\nc = 1.0\n[[d]]\ne.f = 1\n')
fx("C16","F31-date-times","deserialize date-times","a date-time could not be deserialized",doc="a = 2020-01-01\n")
fx("C16","F32-u64","refuse to serialize integers that TOML cannot hold","18446744073709551615 was serialized as -1",u64=18446744073709551615)
fx("C16","F33-variants","serialize enum variants with values as they are deserialized","an enum variant with a value was written without the variant and could not be read back",variant=5)
op("C06","O01-value-directive-beside-document-directive","value-directive-beside-document-directive","comments right above the first item that hold a document directive move to the top as a block; a value directive among them then applies to the whole document, so formatting again sorts it",doc='# tombi: format.rules.table-keys-order = "descending"\n#:tombi lint.disabled = true\na = 1\nb = 1\n',version=V10,rules={})
op("C06","O02-document-directive-moves-to-first-item","document-directive-moves-to-first-item","a document directive above a later header takes effect as one (and is separated by a blank line) once grouping the headers has moved that header to the top",doc='[_u.""]\n#:tombi \n[_u]\na = 0\n[""]\n',version=V10,rules={})

op("C06","O03-blank-line-groups-joined","blank-line-groups-joined","blank lines make groups that are sorted separately, but an array or inline table that fits on one line loses them, so formatting again sorts across the former groups",doc='b = { a.a = 1,\n\n b = 1, a.b = 1 }\n',version=V11,rules={})

fx("C10","F34-descending-stable","keep the order of equal values when sorting an array in descending order","formatting again swapped the equal values",doc='a = [ # tombi: format.rules.array-values-order = "descending"\n  true, # c1\n  true,\n]\n',want='a = [ # tombi: format.rules.array-values-order = "descending"\n  true, # c1\n  true,\n]\n',version=V10)
fx("C10","F35-instants","sort offset date-times by instant","10:00:00.5Z was sorted before 10:00:00Z, and offsets were ignored",doc='# tombi: format.rules.array-values-order = "ascending"\na = [2020-01-01T10:00:00.5Z, 2020-01-01T10:00:00Z, 2020-01-01T11:00:00+02:00]\n',want='# tombi: format.rules.array-values-order = "ascending"\na = [2020-01-01T11:00:00+02:00, 2020-01-01T10:00:00Z, 2020-01-01T10:00:00.5Z]\n',version=V10)
fx("C10","F36-comma-directive","directives beside the comma behind a key-value apply to its array or inline table","a directive behind the comma of a key-value in an inline table had no effect",doc='c = {\n  a = [false, true], # tombi: format.rules.array-values-order = "descending"\n  b = true,\n}\n',want='c = {\n  a = [true, false], # tombi: format.rules.array-values-order = "descending"\n  b = true,\n}\n',version=V11)
fx("C10","F37-kind-mismatch","no panic when the schema does not match the kind of a value","an array of tables where the schema wants a table made the formatter panic",doc="[[u]]\n",want="[[u]]\n",schema='{"type": "object", "additionalProperties": {"type": "object"}}',version=V10)
fx("C10","F38-schema-of-value","sort keys and headers under the schema of the value, also for quoted keys, elements of arrays and pattern properties","headers under an element of an array of tables were not sorted",doc='# tombi: format.rules.table-keys-order = "ascending"\n\n[[pt]]\n\n[pt.u]\n\n[pt.t.t]\n',want='# tombi: format.rules.table-keys-order = "ascending"\n\n[[pt]]\n\n[pt.t.t]\n\n[pt.u]\n',version=V10)
fx("C10","F39-added-comma","sorting an array adds no comma behind a last value that stays the last","a comma appeared on the second formatting only",doc='a = [\n  { b = 1, a = 1 } # c1\n]\n',want='a = [\n  { a = 1, b = 1 } # c1\n]\n',schema='{"type": "object", "properties": {"a": {"type": "array", "items": {"type": "object", "properties": {"a": {}}, "x-tombi-table-keys-order": "ascending", "x-tombi-array-values-order-by": "a"}, "x-tombi-array-values-order": "ascending"}}}',version=V10)
op("C10","O04-blank-line-groups-joined","formatted-differs","as O03: groups of values without a comma at the end are joined on one line, so formatting again sorts across the former groups",doc='# tombi: format.rules.array-values-order = "ascending"\na = [\n  10,\n\n  0\n]\n',want='# tombi: format.rules.array-values-order = "ascending"\na = [\n  10,\n\n  0\n]\n',version=V10)

D20, D19, D7 = "https://json-schema.org/draft/2020-12/schema", "https://json-schema.org/draft/2019-09/schema", "http://json-schema.org/draft-07/schema#"
fx("C11",'F40-fractional-limits','fractional limits apply to integers, and multipleOf 0 does not panic','a fractional minimum of an integer was ignored',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', 'properties': {'a': {'type': 'integer', 'minimum': 1.5}}},doc='a = 1\n')
fx("C11",'F41-contains','contains evaluates items since 2020-12 only','unevaluatedItems of 2019-09 let items pass that only contains looked at',schema={'$schema': 'https://json-schema.org/draft/2019-09/schema', 'properties': {'a': {'type': 'array', 'contains': {'type': 'integer'}, 'unevaluatedItems': False}}},doc='a = [1]\n')
fx("C11",'F42-dependent-schemas','only applied dependent schemas evaluate properties, and unevaluatedProperties evaluates the rest','properties of a dependent schema counted as evaluated although its key was absent',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', 'type': 'object', 'allOf': [{'type': 'object', 'dependentSchemas': {'b': {'properties': {'a': True}}}}], 'unevaluatedProperties': False},doc='a = 1\n')
fx("C11",'F43-references','references to anchors, to other references and in circles are resolved or rejected, without overflowing the stack','a reference to an anchor from the root overflowed the stack',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', '$ref': '#x', '$defs': {'x': {'$anchor': 'x', 'type': 'object', 'required': ['a']}}},doc='b = 1\n')
fx("C11",'F44-sibling-applicators','sibling oneOf, anyOf and allOf of an untyped schema all apply','anyOf beside oneOf was ignored',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', 'properties': {'a': {'oneOf': [{'type': 'integer'}, {'type': 'string'}], 'anyOf': [{'type': 'string'}]}}},doc='a = 1\n')
fx("C11",'F45-ref-to-untyped','a $ref to a schema without a plain type is validated like that schema','a reference to an enum without a type accepted every value',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', '$ref': '#/$defs/d', '$defs': {'d': {'type': ['object'], 'enum': [{'a': 1}]}}},doc='a = 2\n')
fx("C11",'F69-length-in-code-points','minLength and maxLength count Unicode code points','a string of one grapheme cluster but two code points was too short for minLength 2',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', 'properties': {'a': {'type': 'string', 'minLength': 2}}},doc='a = "e\u0301"\n')
op("C11",'O05-keywords-beside-ref','missed:minLength','assertions beside a $ref are not checked when the target has a view for the value',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', 'properties': {'a': {'$ref': '#/$defs/s', 'minLength': 3}}, '$defs': {'s': {'type': 'string'}}},doc='a = "a"\n')
op("C11",'O06-annotation-beside-ref-to-untyped','missed:required','an annotation beside a $ref to an untyped schema with assertions and applicators: the assertions are not checked',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', 'properties': {'a': {'$ref': '#/$defs/s', 'title': 't'}}, '$defs': {'s': {'required': ['b'], 'anyOf': [{'type': 'object'}]}}},doc='a = {}\n')
op("C11",'O07-date-time-not','missed:not','a date-time is not checked against not of an untyped schema',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', 'properties': {'a': {'not': True}}},doc='a = 2000-01-01\n')
op("C11",'O08-root-ref-elsewhere','false-alarm:type-mismatch','a date-time is rejected by a $ref to an untyped root',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', 'properties': {'a': {'type': 'object', 'properties': {'b': {'$ref': '#'}}}}, 'minLength': 0},doc='[a]\nb = 2000-01-01T00:00:00Z\n')

fx("C33","F46-decoded-headers","tables-out-of-order compares decoded table keys, not their spelling","the same key spelled differently counted as another key",doc='[a.x]\n[b.x]\n["a".y]\n',want=[[0,"tables-out-of-order"],[2,"tables-out-of-order"]])
fx("C13","F47-key-value-directive","a directive on a key-value disables dotted-keys-out-of-order in its inline table","a directive on a key-value did not reach its inline table",doc='# tombi: lint.rules.dotted-keys-out-of-order.disabled = true\na = { b.x = 1, c.x = 1, b.y = 1 }\nd = 1\n',want=[])
fx("C13","F48-order-rule-error","order lint rules set to error do not hide the document's other diagnostics","an order rule set to error hid what validation reports",config='schema.catalog = { paths = [] }\nlint.rules.dotted-keys-out-of-order = "error"\n',files={},doc='a.x = 1\nb.x = 1\na.y = 1\n"" = 1\n',want=[[0,"dotted-keys-out-of-order"],[1,"dotted-keys-out-of-order"],[3,"key-empty"]])
fx("C13","F49-unused-required","table-key-required.disabled is unused only when no required key is missing","a directive that disabled nothing was not reported",schema={"$schema":D20,"type":"object","properties":{"t":{"type":"object"}}},doc='a = 1\n[t] # tombi: lint.rules.table-key-required.disabled = true\n',want=[[1,"unused-noqa"]])
op("C13","O09-unused-not-reported","missing:unused-noqa","an unused type-mismatch directive is not reported (likewise const-value and enum when the schema has one that holds, and the key-* and order rules)",schema={"$schema":D20,"type":"object","properties":{"a":{"type":"integer"}}},doc='a = 1 # tombi: lint.rules.type-mismatch.disabled = true\n',want=[[0,"unused-noqa"]])
fx("C38","F50-pattern-order","pattern properties keep the order of the schema","which of two patterns a diagnostic named first depended on the seed of a hash map",schema={"$schema":D20,"patternProperties":{"^x":{"type":"integer"},"^y":{"type":"integer"},"^w":{"type":"boolean"},"^v":True},"additionalProperties":False},doc='zz = 1\n')
fx("C35","F51-version-of-replaced-schema","the TOML version of a schema that #:schema replaces does not apply","a document that names its schema was read as the version of the schema its configuration names",config='[schema]\ncatalog = { paths = [] }\n[[schemas]]\npath = "https://x.test/s0.json"\ninclude = ["*.toml"]\n',files={"https://x.test/s0.json":{"type":"object","x-tombi-toml-version":"v1.1.0"},"https://x.test/s1.json":{"type":"object","additionalProperties":True}},doc='#:schema https://x.test/s1.json\n\nesc = "\\e"\n',want=[[2,"parse-string-error"]])
fx("C38","F64-order-of-order-rules","lint diagnostics of the order rules come in a fixed order","linting twice listed the keys that are out of order in different orders",schema={"$schema":D20},doc='a.x = 1\nb.x = 1\nc.x = 1\na.y = 1\nb.y = 1\nc.y = 1\n')
fx("C38","F65-stale-reference","references into a local schema that changed are resolved again","after a schema file changed, schemas that refer to it kept its old content",files={"s0.json":{"properties":{"a":{"$ref":"s1.json"}}},"s1.json":{"type":"integer"}},then={"s1.json":{"type":"string"}},doc='a = "x"\n')
fx("C38","F66-deprecation-of-unresolved","deprecation of additional keys does not depend on what was resolved before","the first of two additional keys of a deprecated schema reached through allOf and $ref was not reported, until it was linted again",files={"s0.json":{"additionalProperties":{"allOf":[{"$ref":"#/$defs/d"}]},"$defs":{"d":{"type":"number","deprecated":True}}}},then={},doc='d = true\nc = false\n')
fx("C38","F67-skipped-while-locked","composite schemas are not skipped while another task caches them","oneOf, anyOf and allOf were not checked if another task resolved the same schema at that moment (found by the stream cold; the input here is one history of many)",files={"s0.json":{"properties":{"a":{"oneOf":[{"$ref":"#/$defs/d"},{"const":1}]}},"$defs":{"d":{"type":"string"}}}},then={},doc='a = true\n')
fx("C28","F68-relative-to-elsewhere","exclude patterns apply to files given relative to another directory","a file that an exclude pattern names was linted if it was given as ./file or from a subdirectory",files=["a/a.toml"],exclude=["a/*.toml"],cwd="a",inputs=["a.toml"],found=0)
fx("C12","F52-beside-one-of","what oneOf stands beside fails also if the matching branch only warns","beside oneOf whose matching branch had a warning of strict mode a failed not did not count",strict=True,schema={"$schema":D20,"not":{"oneOf":[{"type":"string"},{"type":"object","properties":{"b":{"type":"integer"}}}],"not":{"type":"object"}}},doc='a = 1\n',want=[[0,"table-strict-additional-keys"]])
op("C12","O10-same-schema-again","missing:table-key-required","a sub-schema entry for a table is not applied if the surrounding schema is the same document with the same strict setting",config='[schema]\ncatalog = { paths = [] }\n[[schemas]]\npath = "https://x.test/s0.json"\nroot = "t"\nstrict = false\ninclude = ["*.toml"]\n[[schemas]]\npath = "https://x.test/s0.json"\nstrict = false\ninclude = ["*.toml"]\n',files={"https://x.test/s0.json":{"type":"object","required":["t"],"properties":{"t":{"type":"object"}}}},doc='t = {}\n',want=[[0,"table-key-required"]])
fx("C14","F53-override-over-base","rules of a matching override win over the base rules","a rule set both in [format.rules] and in a matching override kept the base value",config='format.rules.line-width = 80\nlint.rules.key-empty = "warn"\n[[overrides]]\nfiles.include = ["*.toml"]\nformat.rules.line-width = 120\nlint.rules.key-empty = "error"\n',path="/vt-none/a.toml",format={"line-width":120},lint={"key-empty":"error"})
fx("C14","F54-broken-user-config","a broken user or system config does not panic","every command panicked when the user's config.toml was not valid and no project had one",user="x = \n")

fx("C22","F55-unresolved-type-definition","go to type definition of a property that is an unresolved $ref does not hang","go to type definition never answered",file="a.toml",text="#:schema ./s.json\n\na = 1\n",files={"s.json":{"properties":{"a":{"$ref":"#/$defs/none"}}}},request="typeDefinition",line=2,character=0)
fx("C22","F56-position-outside","a position beyond the document does not crash the language server","hover at a line behind the last panicked",text="a = 1\n",request="hover",line=4,character=0)
fx("C22","F57-completion-before-dot","completion before a trailing dot or equal sign has no inverted ranges","completion at the start of a line gave an edit that ends before it starts",text="#:schema ./s.json\n\nschema ./s.json\n",files={"s.json":{"type":"object","properties":{"schema":{"type":"boolean"}}}},request="completion",line=2,character=0)
fx("C22","F58-no-closing-bracket","no panic on a value whose closing bracket is missing","hover in a table without its closing brace panicked",text='"#:schema ./s.json\n\nx2 = false\nx1 = [{" a = 0, b = false }, ""]\n',request="hover",line=4,character=0)
fx("C24","F59-conversions","converting between dotted keys and inline tables keeps the data","converting `a = { b.c = 1, b.d = 2 }` gave an invalid document, and likewise keys that need quotes and positions between two tables",text="a = { b.c = 1, b.d = 2 }\n")
fx("C24","F60-conversion-quotes","converting between dotted keys and inline tables keeps the data","a quoted key lost its quotes",text='a."x y" = 1\n')
fx("C21","F61-format-not-applied","a formatting request does not change the server's document","after a formatting request whose edits the client drops, the server answered for the formatted text",text="a= 1\n",then=[None])
fx("C26","F62-multi-line-tokens","semantic tokens stay within one line and do not overlap","the token of a multi-line string was longer than its line",text='a = """\n\n"""\n')
fx("C26","F63-array-of-tables-range","the range of an array of tables contains its sub-tables","the symbol of an array of tables did not contain that of its element",text="[[key]]\n[key.a]\n")
fx("C11",'F70-unevaluated-items','unevaluatedItems sees the items that adjacent applicators evaluate','an item evaluated by allOf was rejected by unevaluatedItems',schema={'$schema': 'https://json-schema.org/draft/2020-12/schema', 'properties': {'a': {'allOf': [{'prefixItems': [{'type': 'integer'}]}], 'unevaluatedItems': False}}},doc='a = [1]\n')
fx("C12","F71-condition-strict","conditions beside properties do not report the properties as additional in strict mode","then without properties reported every key of the table in strict mode",strict=True,schema={"$schema":D20,"type":"object","properties":{"a":{"type":"integer"}},"if":{"required":["a"]},"then":{"minProperties":1}},doc="a = 1\n",want=[])
fx("C13","F72-deprecated-one-of","a deprecated oneOf schema is reported","the value of a deprecated schema with oneOf was not reported as deprecated",schema={"$schema":D20,"properties":{"a":{"oneOf":[{"type":"integer"}],"deprecated":True}}},doc="a = 1\n",want=[[0,"deprecated"]])
fx("C30","F73-port-and-query","cached files of addresses that differ in port or query are kept apart","a schema fetched from one address was returned for another that differs only in port or query",store=["https://a.test/s.json","https://a.test/s.json?v=1","https://a.test/s.json?v=2","https://a.test:8080/s.json","https://a.test/s?v=1","https://a.test/s"])
fx("C29","F74-mutable-positions","positions in a mutable tree add up from the root","in a mutable copy a token after a line break had the range of another place",doc="a = 1\n\n[b]\nc = [1,\n 2]\n")
fx("C27","F75-stdin-not-formatted","text on standard input that is not to be formatted is printed as it is","`tombi format -` printed nothing where an override disables formatting",config='schema.catalog = { paths = [] }\n[[overrides]]\nfiles.include = ["raw.toml"]\nformat.enabled = false\n',args=["format","--offline","-","--stdin-filename","raw.toml"],stdin="a=1\n",stdout="a=1\n")
CFG='schema.catalog = { paths = [] }\n[[schemas]]\npath = "https://vt.invalid/schema.json"\ninclude = ["*.toml"]\n'
OBJ='{"type": "object"}'
fx("C10","F76-root-override","A table order override of the root table does not reach its sub tables","an override for the target \"\" also set the order of the headers of other tables",doc='[v.u]\n[t]\n[v.t]\n',want='[t]\n[v.u]\n[v.t]\n',schema=OBJ,config=CFG+'[[schemas.overrides]]\ntargets = [""]\nformat.rules.table-keys-order = "ascending"\n',version=V10)
fx("C10","F77-sub-table-headers","An order of a sub table applies to its headers when the root table has none","with the rule disabled, an override of a table did not order the headers below it",doc='[t.b]\n[t.a]\n',want='[t.a]\n[t.b]\n',schema=OBJ,config=CFG+'format.rules.table-keys-order.enabled = false\n[[schemas.overrides]]\ntargets = ["t"]\nformat.rules.table-keys-order = "ascending"\n',version=V10)
fx("C10","F78-disabled-inline-table","A disabled table order override leaves inline tables as they are","an override that disables the order of an inline table did not keep its keys in place",doc='a = { x.b = 1, b = 1, x.a = 1 }\n',want='a = { x.b = 1, b = 1, x.a = 1 }\n',schema=OBJ,config=CFG+'[[schemas.overrides]]\ntargets = ["a"]\nformat.rules.table-keys-order.enabled = false\n',version=V10)
fx("C10","F79-array-rule","Array order settings also apply to arrays without an item schema","an array whose schema has no items was sorted although the configuration disables the rule",doc='a = [2, 1]\n',want='a = [2, 1]\n',schema='{"type": "object", "properties": {"a": {"type": "array", "x-tombi-array-values-order": "ascending"}}}',config=CFG+'format.rules.array-values-order.enabled = false\n',version=V10)
fx("C10","F80-dotted-beside-sort-key","A dotted key beside the sort key does not keep an array from being sorted","an array was sorted only when its elements were formatted again",doc='a = [{ n = 2, c = 1 }, { b.a = 1, n = 1 }]\n',want='a = [{ b.a = 1, n = 1 }, { c = 1, n = 2 }]\n',schema='{"type": "object", "properties": {"a": {"type": "array", "items": {"type": "object", "properties": {"n": {}}, "x-tombi-table-keys-order": "ascending", "x-tombi-array-values-order-by": "n"}, "x-tombi-array-values-order": "ascending"}}}',version=V10)
fx("C23",'F81-string-escapes','completed strings are escaped as basic strings','the value `x\\y` of an enum was completed as `"x\\y"`',schema={'type': 'object', 'properties': {'a': {'enum': [1, 'x\\y']}}},text='a=|\n',accept=['"x\\\\y"', 'a = "x\\\\y"\n'])
fx("C23",'F82-string-const','completed strings are escaped as basic strings','the constant `x"y` was completed as `a = "x"y"`',schema={'type': 'object', 'properties': {'a': {'const': 'x"y'}}},text='a.|\n',accept=['"x\\"y"', 'a = "x\\"y"\n'])
fx("C23",'F83-snippets','escape literals and keys inside completion snippets','accepting the value "$1" in an array gave an empty string',schema={'type': 'object', 'properties': {'a': {'type': 'array', 'items': {'enum': ['$1']}}}},text='a = [|]\n',accept=['"$1"', 'a = ["$1"]\n'])
fx("C23",'F84-keys-of-all-of','keys in use are not offered again through allOf','with allOf a key that is there already was offered',schema={'type': 'object', 'properties': {'a': {'allOf': [{'type': 'object', 'properties': {'b': {'type': 'object', 'properties': {}}, 'c': {'type': 'integer'}}}]}}},text='[a]\n|\nb = {}\n',want=['c'],**{'not':['b']})
fx("C23",'F85-prefix','keys are completed by prefix only at the key','inside the value of a key not in the schema, keys that begin with its name were offered',schema={'type': 'object', 'properties': {'ba': {'type': 'integer'}, 'a': {'type': 'integer'}}},text='b = [|]\n',**{'not':['ba']})
T86="folding ranges count characters in the client's encoding"
fx("C26","F86-folding-characters",T86,"the characters of folding ranges were counted in code points whatever the encoding",text='[a]\nb = ["😀", 1]\n# ünïcode 😀\n# 😀\n[c]\n')
T87="width of an array or inline table counts the comment's space once, and empty ones are not broken"
fx("C08","F87-empty-array-broken",T87,"an empty array that did not fit the line was broken into a blank line",doc='averylongkey = []\n',rules={"line-width":10},version=V10)
fx("C08","F88-comment-space-twice",T87,"an array whose line with comment is exactly as long as the line width was broken",doc='a = [1]  # c\n',rules={"line-width":12},version=V10)
WS_F={"Cargo.toml":'[workspace]\nmembers = ["crates/*"]\nexclude = ["crates/b"]\n[workspace.dependencies]\nmy-a = { path = "crates/a", package = "a" }\n',"crates/a/Cargo.toml":'[package]\nname = "a"\n',"crates/b/Cargo.toml":'[package]\nname = "b"\n',"crates/c/Cargo.toml":'[package]\nname = "c"\n[dependencies]\nmy-a.workspace = true\n'}
fx("C41","F89-workspace-exclude","exclude the paths of workspace.exclude from the members of a Cargo workspace","the members of a Cargo workspace included those that workspace.exclude names",files=WS_F,at=["Cargo.toml","members"],method="definition",want=[["crates/a/Cargo.toml",18,"a"],["crates/c/Cargo.toml",18,"c"]])
fx("C41","F90-inherited-rename","an inherited dependency refers to the package of its workspace entry","references of a package missed members that inherit it under another name",files=WS_F,at=["crates/a/Cargo.toml",'a"'],method="references",want=[["Cargo.toml",83,"my-a"],["crates/c/Cargo.toml",36,"my-a"]])
UV_F={"pyproject.toml":'[project]\nname = "r"\n[tool.uv.workspace]\nmembers = ["libs/*"]\nexclude = ["libs/b"]\n',"libs/a/pyproject.toml":'[project]\nname = "a"\ndependencies = ["b"]\n[tool.uv.sources]\nb = { path = "../b" }\n',"libs/b/pyproject.toml":'[project]\nname = "b"\n'}
fx("C41","F91-uv-exclude","exclude patterns of a uv workspace are relative to its root","the members of a uv workspace included those that its exclude names",files=UV_F,at=["pyproject.toml","members"],method="definition",want=[["libs/a/pyproject.toml",18,"a"]])
fx("C41","F92-uv-path-source","locations in the path source of a uv project have a canonical path","the path source of a uv project led to a path with .. in it",files=UV_F,at=["libs/a/pyproject.toml","../b"],method="definition",want=[["libs/b/pyproject.toml",18,"b"]])
CA,CI,PA,PU="Add to Workspace and Inherit Dependency","Inherit Dependency from Workspace","Add to Workspace and Use Workspace Dependency","Use Workspace Dependency"
CM='[package]\nname = "a"\n[dependencies]\n'
CR='[workspace]\nmembers = ["a"]\n'
fx("C42","F93-inline-place","the place of an entry added to an inline table of workspace dependencies","an entry added in the middle of an inline table of workspace dependencies made it invalid",root=CR+'dependencies = { log = "1", tokio = "1" }\n',member=CM+'serde = "1"\n',action=CA)
fx("C42","F94-workspace-optional","a dependency added to the workspace is not optional there","an optional dependency was added to the workspace as optional, which Cargo rejects",root=CR+'[workspace.dependencies]\n',member=CM+'serde = { version = "1", optional = true }\n',action=CA)
fx("C42","F95-below-header","a dependency is added below the header of workspace.dependencies","a dependency was added to the table of another dependency",root=CR+'[workspace.dependencies]\nlog = "1"\n[workspace.dependencies.rand]\nversion = "1"\n',member=CM+'tokio = "1"\n',action=CA)
fx("C42","F96-inline-comment","comments in an inline table to which a workspace dependency is added","an entry was added behind the comment of the last one",root=CR+'dependencies = {\n  log = "1" # c1\n}\n',member=CM+'tokio = "1"\n',action=CA)
PM='[project]\nname = "a"\n'
PR='[project]\nname = "r"\n'
PW='[tool.uv.workspace]\nmembers = ["a"]\n'
fx("C42","F97-own-extras","a member that uses a workspace dependency keeps its own extras","the extras of a member's requirement became those of the workspace",file="pyproject.toml",root=PR+'dependencies = ["rich"]\n'+PW,member=PM+'dependencies = ["rich[a]>=1"]\n',action=PU)
fx("C42","F98-marker","a member that uses a workspace dependency keeps its environment marker","the environment marker of a requirement was dropped",file="pyproject.toml",root=PR+'dependencies = ["rich"]\n'+PW,member=PM+'dependencies = ["rich>=1; sys_platform == \'linux\'"]\n',action=PU)
fx("C42","F99-requirement-place","the place of a requirement added to an array of the workspace","a requirement added to an array was placed in the wrong place or behind a comment",file="pyproject.toml",root=PR+'dependencies = [\n  "anyio",\n  "rich" # c1\n]\n'+PW,member=PM+'dependencies = ["zstd>=1"]\n',action=PA)
fx("C42","F100-array-values","the values of an array are those of its groups","a requirement added to an array that is not empty made it invalid",file="pyproject.toml",root=PR+'dependencies = ["anyio"]\n'+PW,member=PM+'dependencies = ["boltons>=1"]\n',action=PA)
fx("C42","F101-not-requirements","values that are not requirements count when a requirement is added to an array","an included group shifted the place of an added requirement",file="pyproject.toml",root=PR+'[dependency-groups]\ndev = [{ include-group = "t" }, "anyio", "rich"]\nt = []\n'+PW,member=PM+'[dependency-groups]\ndev = ["numpy>=1"]\n',action=PA)
op("C28","O11-ignore-file-above","ignore-file-above","an ignore file above the directory that is searched is matched (by the ignore crate) as if every file below were right in that directory: its patterns with a slash hide the wrong files and not the right ones",tree={".git/HEAD":"","p/a/b.toml":"a = 1\n","p/c/d.toml":"a = 1\n",".gitignore":"p/b.toml\np/c/d.toml\n"},root="p",found=["p/a/b.toml"])
op("C39","O12-date-time-untyped","date-time-untyped","hovering a date-time answers nothing when its schema has no type (other values are described)",text='a = 0001-01-01\n',schema={"type":"object","properties":{"a":{}}})
op("C40","O13-date-time-untyped","date-time-untyped","a date-time whose schema has no type leads nowhere (other values do)",text='a = 0001-01-01\n',schema={"type":"object","properties":{"a":{}}})
op("C40","O14-schema-columns","range","columns in the schema file are counted in graphemes whatever the client's encoding",text='"日😀本" = 1\n',schema='{"type": "object", "properties": {"日😀本": {"type": "integer"}}}')
