#!/usr/bin/env python3
# writes /verif/properties.jsonl (one place to edit the property texts)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Accepted schemas have no dangling index or foreign-key references",
 "In every schema the compiler accepts, each index names only columns declared in its own table, and each foreign key names child columns declared in its own table, a parent table declared in the same source (earlier, later or the table itself), and parent columns declared in that parent table. A name that is only an index name, or a column of some other table, never counts as a declared column.",
 ["inputs"],"every source with any number of tables, columns, indexes and foreign keys, under every pattern of equal and different names",
 "Tests try one missing column per position with one spelling; whether every reference in every position is checked against the right table depends on all equality patterns between names.",
 ["schema/validator.go"],[("reference checks in the context validator","schema/validator.go VisitSchema, VisitIndex, VisitForeignKey")],["kfparser.Parse / ParseKF error"])
p("C02","Declared names are unique in their scope",
 "In every accepted schema table names are pairwise different, action names (including the action made from an init block) are pairwise different, extension aliases are pairwise different, and inside one table column and index names are pairwise different; inside one action the parameters are pairwise different. Names are compared exactly (case-sensitively) and the scopes are independent of each other, so the same name may be reused in different scopes.",
 ["inputs"],"every source, for every pair of declarations of the same scope at any distance and every pattern of equal names",
 "Tests duplicate two adjacent names; they cannot show that any pair at any position is compared, nor that unrelated scopes do not interfere.",
 ["schema/validator.go"],[("per-scope name maps","schema/validator.go VisitSchema, VisitTable, VisitAction")],["kfparser.Parse error"])
p("C03","Every rule-abiding schema is accepted and a rejection names a violated rule",
 "A grammatical source that breaks none of the documented semantic rules (unique names, resolvable references, column constraints that fit the column type and occur once, at most one foreign-key action per event, resolvable calls and variables, at most one init block, visibility, mutability and each auxiliary at most once, SQL and call statements that are valid Kwil) is accepted. When a source is rejected for a semantic reason, the reported error is the documented one for a rule that the source really violates.",
 ["inputs"],"every grammatical source: all combinations of declarations, sizes and name-equality patterns",
 "Tests check one offending source per error and a few accepted ones; absence of spurious rejections and of wrong diagnoses is a statement about all sources.",
 ["schema/validator.go","schema/errors.go","kfparser/visitor.go"],[("validator error returns","schema/validator.go"),("visitor panics for repeated modifiers","kfparser/visitor.go VisitAction_attr_list, VisitSource_unit")],["error class reported by kfparser.Parse"])
p("C04","Column constraints fit the column type and repeat never; one FK action per event",
 "No accepted schema has a column carrying the same constraint twice, an int column with a minimum or maximum length, or a text column with a minimum or maximum value. No accepted foreign key carries two actions for the same event (two on update or two on delete), and every combination not excluded by these rules is accepted.",
 ["inputs"],"every column type and every sequence of constraints in every order and length; every sequence of foreign-key actions; on every column and foreign key of every table",
 "Tests use one pair of constraints on the first column of one table; order, position and the full type/constraint matrix are not covered.",
 ["schema/validator.go","kfparser/visitor.go"],[("attribute and action duplicate checks","schema/validator.go VisitColumn, VisitForeignKey")],["kfparser.Parse error"])
p("C05","Calls inside actions refer only to things that exist and are in scope",
 "In every accepted schema each action call names an action of the schema (declared anywhere in it) and each extension call names a declared extension alias. Every $variable used anywhere in a call argument, however deeply nested in an expression or function call, is a parameter of that action or was received from an extension call by an earlier statement of the same action, the only @variable used is @caller, and the variables received by one extension call are pairwise different. Calls that obey these rules and use only operators and scalar functions of the Kwil action language are accepted.",
 ["inputs"],"every action body: all statement sequences, receivers, argument expressions and name-equality patterns, across several actions",
 "Tests use single statements with a bare variable as the only argument; scoping across statements, across actions and inside nested expressions is not sampled.",
 ["schema/validator.go"],[("call and argument reference checks","schema/validator.go visitActions, checkArgRef")],["kfparser.Parse error"])
p("C06","Every SQL statement of every action is validated",
 "An accepted schema contains no SQL statement that the SQL parser and SQL generator of the Kwil library reject, whichever action (or init block) and whichever position in its body the statement has, and whatever letter case its leading keyword has. A schema whose statements are all accepted by them is not rejected because of them.",
 ["inputs"],"every number and order of actions and statements, with any mixture of valid and invalid SQL statements and calls",
 "Tests contain only valid SQL in a few one- or two-statement bodies, so skipping the check for some position, action or keyword would go unnoticed.",
 ["schema/validator.go"],[("per-statement SQL check","schema/validator.go visitActions")],["kfparser.Parse error"])
p("C07","Tables and columns are extracted faithfully",
 "For every accepted source the resulting schema has the declared database name and exactly the declared tables in source order, each with its name and exactly its columns in source order. Each column carries its declared name, type and constraints in source order, and a constraint's value is exactly the literal written in the source (or absent for constraints without one).",
 ["inputs"],"every accepted source: any number of tables, columns and constraints in any order, with any names and literals",
 "Tests compare a handful of one-table outputs; nothing checks several tables, long column lists or all constraint combinations.",
 ["kfparser/visitor.go","schema/schema.go","kfgrammar/kuneiform_parser.go"],[("parse tree to schema translation","kfparser/visitor.go VisitSource_unit, VisitTable_decl, VisitColumn_def, VisitColumn_constraint")],["schema returned by kfparser.Parse and its JSON"])
p("C08","Indexes and foreign keys are extracted faithfully",
 "For every accepted source each table has exactly its declared indexes and foreign keys in source order, also when the two kinds are interleaved. An index keeps its name (without the leading #), its kind and its column list in order; a foreign key keeps its child columns, parent table, parent columns and its actions (event and reaction, full or abbreviated spelling) in order.",
 ["inputs"],"every accepted source with any number and interleaving of indexes and foreign keys, list lengths, index kinds, events and reactions",
 "Tests cover one or two declarations with one column each; order, interleaving, multi-column lists and all event/reaction pairs are not compared.",
 ["kfparser/visitor.go","kfgrammar/kuneiform_parser.go"],[("index and foreign key translation","kfparser/visitor.go VisitIndex_def, VisitForeign_key_def, VisitForeign_key_action")],["schema returned by kfparser.Parse and its JSON"])
p("C09","Action names, parameters, modifiers and annotations are extracted faithfully",
 "For every accepted source the schema's actions are exactly the declared actions in source order, followed by one action named init if an init block was written (private, mutating, without parameters, wherever in the source it stood). Each action carries its name, its parameters in order, its annotations in order (without the leading @ and without whitespace between tokens), is public exactly if declared public, is a view exactly if declared view and otherwise mutating, and lists exactly the declared auxiliary modifiers; modifiers may come in any order.",
 ["inputs"],"every accepted source: any number of actions, parameters, annotations, modifiers in any order, with or without init at any position",
 "Tests compare single actions with one modifier order; order independence, several annotated actions and init placement are not covered.",
 ["kfparser/visitor.go","schema/types.go"],[("action translation","kfparser/visitor.go VisitSource_unit, VisitAction_decl, VisitAction_attr_list, VisitInit_decl, VisitAnnotation_decl")],["schema returned by kfparser.Parse and its JSON"])
p("C10","Action bodies are preserved statement by statement",
 "For every accepted source each action (and the init action) lists exactly its statements in source order. A SQL statement is kept character for character including its semicolon; a call statement keeps exactly its sequence of tokens (receivers, target, arguments, operators, literals), so that reading the stored text again yields the same tokens.",
 ["inputs"],"every statement sequence; every SQL text without ; and }; every call with any receivers and any argument expression, whatever whitespace and comments separate its tokens",
 "Tests compare a few literal statements; token gluing, operators, long bodies and unusual characters inside SQL or string literals are not sampled.",
 ["kfparser/visitor.go"],[("statement text extraction","kfparser/visitor.go VisitAction_stmt_list, VisitAction_stmt")],["statements of the schema returned by kfparser.Parse"])
p("C11","Extension directives are extracted faithfully",
 "For every accepted source the schema's extensions are exactly the declared use directives in source order, each with its name, its alias and its configuration entries in order. Each configuration entry keeps its key and exactly the literal written in the source.",
 ["inputs"],"every number of use directives and configuration entries with any names and literals",
 "The only extension tests use one or two directives with at most two entries.",
 ["kfparser/visitor.go"],[("extension translation","kfparser/visitor.go VisitExtension_directive, VisitExt_config_list")],["extensions of the schema returned by kfparser.Parse and its JSON"])
p("C12","A source is syntactically accepted exactly if it follows the grammar",
 "For every sequence of tokens the parser reports a syntax error exactly when the sequence is not a source of the Kuneiform grammar: a database directive, then use directives, then tables, actions and init blocks in any order, each with exactly the parts the grammar gives them. Nothing after an accepted prefix is silently ignored, and no grammatical source is refused as a syntax error.",
 ["inputs"],"every token sequence, grammatical or not, at every nesting position of the grammar",
 "Tests contain eight malformed sources and some well-formed ones; the language accepted by 8800 lines of generated parser code is not something examples can pin down.",
 ["kfgrammar/kuneiform_parser.go","kfparser/parser.go","utils/error_listener.go"],[("generated recursive-descent parser over a serialized ATN","kfgrammar/kuneiform_parser.go"),("error listener","utils/error_listener.go SyntaxError")],["error of kfparser.Parse"])
p("C13","Source text is split into the right tokens",
 "Every text is split into tokens by longest match: keywords and punctuation exactly as spelled (keywords lower case, and SQL statements starting with select, insert, update, delete or with in any letter case and extending to the next ; or }), names ([A-Za-z][A-Za-z0-9_]*), #index names, $variables, @names, digits and single-quoted strings with backslash escapes. A word that merely starts with or contains a keyword is a name, whitespace, line ends and both comment forms only separate tokens, and a character that starts no token is reported as an error.",
 ["inputs"],"every text over the whole character set, with every lexeme length and every neighbouring character",
 "Tests never look at tokens; keyword-prefixed names, escapes, comments next to operators and letter case are hardly touched.",
 ["kfgrammar/kuneiform_lexer.go"],[("generated lexer driven by a serialized ATN","kfgrammar/kuneiform_lexer.go serializedATN")],["tokens delivered by the lexer, observable as acceptance and extracted names"])
p("C14","Parsing reports failure exactly once and never panics or half-succeeds",
 "For every input text parsing returns normally: either a schema and no error, or a non-nil error (also for panics raised internally), and an error listener passed by the caller holds errors exactly in the failing case. Malformed sources yield an error that is recognisable as a syntax error and gives the line and column of the first offending token, semantically wrong ones yield the documented semantic error and are not reported as syntax errors, and nothing is reported twice: a semantically wrong source leaves exactly one error, and so does each character that starts no token.",
 ["inputs"],"every input text, with and without a caller-supplied listener, in both modes",
 "Tests only look at whether some error of a given kind is returned for a few texts; the error count, position, listener contents and panic-freedom for arbitrary inputs are not checked.",
 ["kfparser/parser.go","utils/error_listener.go"],[("deferred recovery and error aggregation","kfparser/parser.go ParseKF"),("error list","utils/error_listener.go ErrorList, ErrorListener")],["values returned by kfparser.Parse / ParseKF, errors.Is, listener contents"])
p("C15","Annotation strings are parsed exactly",
 "For every annotation text that the compiler stores for an action, parsing it returns the target name and exactly the written attributes in order, with string values kept verbatim including quotes and escapes and numbers verbatim. This also holds when a string value contains commas, parentheses, equals signs, digits, escaped quotes or attribute-like text, and when blanks surround names, values, commas and equals signs inside the parentheses; an annotation without attributes gives none; texts without an opening or without a final closing parenthesis, or shorter than three characters, are refused with an error.",
 ["inputs"],"every annotation with any number of attributes and any attribute values, and every malformed text",
 "Tests use seven texts with plain alphanumeric values; values that look like syntax are the risky ones.",
 ["utils/annotation.go"],[("attribute regular expression and splitting","utils/annotation.go ParseAnnotation")],["Annotation returned by utils.ParseAnnotation"])
p("C16","The command line tool writes exactly the result or fails visibly",
 "For every invocation, the tool exits with status 0 and reports success only if exactly one file was named, it was read and compiled, and <output dir>/<file name without its last extension>.json now holds exactly the JSON of the schema, whatever that file held before; the directory is created when missing and no other file is touched. In every failing case (wrong argument count, directory creation, reading, compiling, opening, writing or closing the output) it prints a message and exits with that failure's own documented non-zero status, and the version, trace and output options have their documented effect.",
 ["configurations","fault_sequences","inputs"],"every combination of options and arguments, every file name, every earlier content of the output file and every failing file operation",
 "No test runs the command; failures of file operations and earlier output files cannot be produced by example runs of the parser.",
 ["cmd/root.go"],[("command body and exit codes","cmd/root.go rootCmd"),("output writing","cmd/root.go writeToFile"),("flag definitions","cmd/root.go init")],["process exit status, printed text, files written"])
p("C17","The JSON output has the documented shape and loses nothing",
 "For every schema the JSON has exactly the documented keys in the documented nesting: owner and name always; tables, actions, extensions, columns, indexes, foreign keys, attributes, annotations, statements, attribute values and index types only when non-empty; config and alias of extensions, columns of indexes, keys, parent table and actions of foreign keys, and inputs, public, mutability and auxiliaries of actions always. Decoding the JSON gives back the same schema, so no two different schemas share one JSON text, and encoding never fails.",
 ["inputs"],"every schema value: every combination of empty and non-empty parts and any strings",
 "No test encodes a schema to JSON at all.",
 ["schema/schema.go"],[("struct tags and marshalling","schema/schema.go Schema, ToJSON, astMarshal")],["bytes returned by ToJSON"])
p("C18","Type keyword lookups accept exactly the documented keywords in any letter case",
 "Looking up a column type accepts exactly null, text, int and blob, a column attribute exactly primary, unique, notnull, default, min, max, minlen and maxlen, and an index type exactly index, unique and primary, each in any mixture of letter case, and returns the corresponding schema type. Every other text, including the empty one and texts with extra characters, yields an error and no type.",
 ["inputs"],"every text up to the bound and every letter-case variant of every keyword",
 "These exported functions have no tests at all.",
 ["schema/types.go"],[("keyword tables","schema/types.go GetColumnType, GetAttributeType, GetIndexType")],["values returned by the lookup functions"])
p("C19","A parse result depends only on its own input text",
 "Parsing a text gives the same schema or the same failure whatever was parsed before in the same process (successfully or not), whether or not the caller supplies a fresh error listener, and whether or not trace mode is on. Parsing never changes a schema returned by an earlier parse.",
 ["histories","configurations"],"every sequence of parses, accepted and rejected, in both modes and with either kind of listener",
 "Each test parses one text in default mode and only looks at that result.",
 ["kfparser/parser.go","kfparser/visitor.go","schema/validator.go","kfgrammar/kuneiform_parser.go"],[("fresh lexer, parser, visitor and validator per parse","kfparser/parser.go ParseKF"),("shared static parser data","kfgrammar/*.go staticData")],["schemas and errors returned by successive ParseKF calls"])
p("C20","The WebAssembly bridge reports exactly what the parser returns",
 "For every source text passed to the exported parseKuneiform function, the result object's json field is exactly the JSON of the compiled schema and there is no error field when the text is accepted, and json is empty and error is a non-empty text containing the parser's message when it is rejected. A call without exactly one argument returns an explanatory text instead and does not run the parser.",
 ["inputs"],"every source text and every number of arguments",
 "The package is only compiled, never run, by the test suite.",
 ["wasm/wasm.go"],[("call wrapper","wasm/wasm.go parse, parseWrapper")],["object returned to JavaScript"])
p("C21","Concurrent parses do not influence each other",
 "Any number of goroutines may parse different texts at the same time and each obtains exactly the result a lone parse of its text would give. No data race occurs.",
 ["schedules"],"all interleavings of two or more concurrent parses",
 "Tests parse sequentially.",
 ["kfparser/parser.go","kfgrammar/kuneiform_parser.go"],[("locks inside the ANTLR runtime's shared prediction caches","github.com/antlr4-go/antlr/v4")])
p("C22","Parsing terminates on every input, however long or deeply nested",
 "For every input text parsing ends with a result or an error, without exhausting the stack or running forever.",
 ["inputs"],"texts of unbounded size and nesting depth",
 "Tests use short texts.",
 ["kfparser/parser.go","kfgrammar/kuneiform_parser.go"],[("recursive descent of the generated parser","kfgrammar/kuneiform_parser.go")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
