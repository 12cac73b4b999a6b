#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

PARSER="kfparser/parser.go"; VIS="kfparser/visitor.go"; VAL="schema/validator.go"; SCH="schema/schema.go"; TYP="schema/types.go"; ERR="schema/errors.go"; EL="utils/error_listener.go"; ANN="utils/annotation.go"; CLI="cmd/root.go"; WASM="wasm/wasm.go"; GP="kfgrammar/kuneiform_parser.go"; GL="kfgrammar/kuneiform_lexer.go"

p("C01","Source with any syntax error is rejected as a syntax error",
"If a source text contains anything the tokenizer or the grammar does not accept, parsing returns a non-nil error that callers can recognise as the published syntax-error sentinel, and never a success. This holds for every error the recogniser reports, whether it comes from the tokenizer or from the grammar, and whichever way parsing is invoked (default or caller-supplied error collector, any mode).",
["inputs"],"every source text with at least one lexical or grammatical error, every parse mode, own or supplied error collector",
"The tests feed about ten malformed sources; they do not cover error positions, several errors at once, tokenizer-only errors, or a supplied collector.",
[PARSER,EL],[("error collector attached to tokenizer and recogniser before parsing","kfparser.ParseKF"),("every reported error is recorded, wrapped in the sentinel","utils.ErrorListener.SyntaxError / ErrorList"),("recorded errors end the parse","kfparser.ParseKF")],
[("ErrorList","errors recorded so far","utils/error_listener.go")],["kfparser.Parse","kfparser.ParseKF"])

p("C02","An internal failure while parsing surfaces as an error, not a crash",
"Whatever panics while a source is being recognised, converted or validated (with a string, an error, or any other value, including runtime faults), the parse call still returns to its caller, with a non-nil error; when the panic value was an error, that error remains recognisable in the returned one. No parse path ends the process or leaves a background task that could crash it.",
["inputs","fault_sequences"],"every panic value kind raised at any point of recognition, conversion or validation",
"Tests only exercise the panics of three duplicate-modifier sources, all of kind error.",
[PARSER,EL],[("deferred recovery turns any panic value into the returned error","kfparser.ParseKF")],(),["kfparser.Parse","kfparser.ParseKF"])

p("C03","A successful parse always returns a fully validated schema",
"When parsing reports success the result is a non-nil schema, and exactly that schema has gone through semantic validation without error, in a validation context of its own that no earlier parse has touched. Any error from validation is returned to the caller and is recognisable there.",
["inputs","histories"],"every source text, every parse mode, any sequence of earlier parses",
"Tests check sample results; they cannot show that no path skips validation, validates something else, or drops its error.",
[PARSER,EL,SCH],[("validation is the last step before success","kfparser.ParseKF"),("the schema dispatches to the whole-schema check","schema.Schema.Accept")],(),["kfparser.Parse","kfparser.ParseKF"])

p("C04","No two declarations in one scope share a name",
"A source is never accepted when two tables, two actions, or two extensions (by alias) have the same name, when two columns or two indexes of one table have the same name, or when two parameters of one action have the same name. This holds wherever in the source the two declarations stand and however many others surround them.",
["inputs"],"every pair of equally named declarations of one kind at any two positions of any schema",
"Each kind has one test with the duplicates adjacent at the start; distance, position and surrounding declarations are unbounded.",
[VAL],[("name seen before is refused","schema.ContextValidator.VisitSchema / VisitTable / VisitAction")],
[("tableCtx/actionCtx/extCtx","names declared so far","schema/validator.go")],["kfparser.Parse","schema.Schema.Accept"])

p("C05","A once-only modifier never appears twice in an accepted source",
"A source is never accepted when one column carries two attributes of the same kind, one foreign key has two effects for the same trigger, one call assigns two results to the same variable, one action states its visibility or its mutability more than once or repeats an auxiliary keyword, or the schema has more than one init block. This holds for every position and every number of other modifiers.",
["inputs"],"every pair of repeated modifiers at any positions of any declaration",
"Tests have one adjacent pair per kind at most (none for foreign-key effects further apart, none for some kinds).",
[VAL,VIS],[("kind seen before is refused","schema.ContextValidator.VisitColumn / VisitForeignKey / visitActions"),("modifier lists are counted","kfparser.KFVisitor.VisitAction_attr_list / VisitSource_unit")],(),["kfparser.Parse","schema.Schema.Accept"])

p("C06","Indexes and foreign keys only refer to declared columns and tables",
"In every accepted source, each column listed by an index is a declared column of the same table, each child column of a foreign key is a declared column of its own table, the parent table is a declared table, and each parent column is a declared column of that parent table. Names of other things (indexes, tables, columns of another table) do not count as columns.",
["inputs"],"every index and foreign key, every position in its column lists, every arrangement of tables",
"Tests sample one missing name per clause, in the first position, in schemas of one or two tables.",
[VAL],[("column lookup in the owning table","schema.ContextValidator.VisitIndex"),("child, parent table and parent column lookups","schema.ContextValidator.VisitSchema / VisitForeignKey")],
[("tableCtx","declared members per table","schema/validator.go")],["kfparser.Parse","schema.Schema.Accept"])

p("C07","Call statements only use actions, extensions and variables in scope",
"In every accepted source, each action call names a declared action, each extension call names a declared extension alias, and each variable or block variable anywhere inside a call argument is in scope: an input of the same action, a result assigned by an earlier extension call in that action, or a supported block variable. Inputs or results of other actions, and results assigned only later, do not count.",
["inputs"],"every call statement at any position of any action, every argument position and nesting depth",
"Tests have one undefined variable as a direct argument; nesting, ordering and cross-action leakage are not exercised.",
[VAL],[("callee and argument lookup","schema.ContextValidator.visitActions / checkArgRef")],
[("localCtx","variables in scope of the current action","schema/validator.go")],["kfparser.Parse","schema.Schema.Accept"])

p("C08","Column attributes must fit the column type",
"A source is never accepted when an int column has a minimum-length or maximum-length attribute, or a text column has a minimum or maximum attribute, at any position in the attribute list and for any column of any table.",
["inputs"],"every column at any position, every attribute position",
"Tests try each combination once, as the first attribute of the first column.",
[VAL],[("type/attribute combination is refused","schema.ContextValidator.VisitColumn")],(),["kfparser.Parse","schema.Schema.Accept"])

p("C09","Every statement of every action is parsed and checked",
"A source is never accepted when any statement of any action, the init block included, is rejected by the statement parser, or, for an SQL statement, is rejected by the SQL parser or cannot be rendered back to SQL. The statement's own error is what the caller can recognise.",
["inputs"],"every statement at any position of any action, every kind of rejection",
"Tests contain a handful of bad statements, always in the first action.",
[VAL],[("parse of every statement, errors propagated","schema.ContextValidator.visitActions")],(),["kfparser.Parse","schema.Schema.Accept"])

p("C10","A semantically valid source is never rejected",
"A syntactically valid source that breaks none of the documented rules (unique names, once-only modifiers, existing references, fitting attributes, parsable statements) is accepted: neither the order of declarations, forward references between tables or actions, self references, equal names in different scopes, names differing only in letter case, nor optional parts being absent cause an error.",
["inputs"],"every valid schema: any order and number of declarations, any placement of referring and referred declarations",
"Tests accept a few dozen small valid schemas; scopes, orders and forward references combine without bound.",
[VAL,VIS],[("two-phase checks: declare everything, then resolve references","schema.ContextValidator.VisitSchema"),("per-scope name tables","schema.ContextValidator")],(),["kfparser.Parse","schema.Schema.Accept"])

p("C11","Each semantic error is reported as its own documented kind",
"When a source is rejected because of exactly one broken semantic rule, the returned error is recognisable, with the standard error-matching facility, as the published error kind for that rule and as no other published kind.",
["inputs"],"every violation of every semantic rule, at any position",
"Tests match the kind for one instance of most rules; the association must hold on every path.",
[VAL,ERR,EL,PARSER],[("errors wrap the sentinel of the rule","schema/validator.go, kfparser/visitor.go"),("sentinel values","schema/errors.go"),("unwrapping","utils.ErrorList.Unwrap")],(),["kfparser.Parse"])

p("C12","Every declaration is carried into the schema unchanged and in order",
"For every accepted source, the resulting schema contains exactly the declared extensions (with their configuration and alias), tables, columns, column attributes and their values, indexes, foreign keys, actions, annotations and parameters: none missing, none added, in source order, each with its own name and parts as written. Only the documented sigils are stripped (the # of an index name and the @ of an annotation), and absent optional parts are empty.",
["inputs"],"every valid source, every position in every declaration list, every combination of optional parts",
"Tests compare a few small schemas; list length, order and combinations of optional parts are unbounded.",
[VIS,SCH],[("conversion of each tree node","kfparser.KFVisitor.Visit*")],(),["kfparser.Parse"])

p("C13","Each keyword means what the language says",
"Every column type, column attribute, index type, foreign-key trigger and foreign-key effect keyword in a source yields the documented constant in the schema, whichever accepted spelling is used, and different keywords never yield the same constant; an attribute carries a value exactly when its keyword takes one.",
["inputs"],"every keyword alternative in the grammar, at every place the grammar allows it",
"Tests use most, not all, alternatives, and a new or reordered alternative would go unnoticed.",
[VIS,TYP,GP],[("keyword alternatives","kfparser.KFVisitor.VisitColumn_def / VisitColumn_constraint / VisitIndex_def / VisitForeign_key_action"),("constants","schema/types.go")],(),["kfparser.Parse"])

p("C14","Actions get exactly the visibility, mutability and modifiers declared",
"An action is public exactly when it is declared public and otherwise private; it is a view exactly when declared so and otherwise an update; it is owner-restricted exactly when declared so; and it has no modifier that was not declared. This holds independently of the order in which modifiers are written and of the other actions.",
["inputs"],"every combination and order of modifiers on any action",
"Tests cover some combinations in a fixed order; security-relevant defaults must hold for all.",
[VIS,TYP],[("modifier conversion with private/update defaults","kfparser.KFVisitor.VisitAction_attr_list / VisitAction_decl")],(),["kfparser.Parse"])

p("C15","The init block becomes one private update action named init, placed last",
"A source with an init block yields exactly one action made from it, named init, private, update, without inputs, with the block's statements in order, and placed after all declared actions wherever the block stands in the source; without an init block no such action is added.",
["inputs"],"every source with and without an init block, any number and placement of actions",
"Tests cover init alone and init after one action.",
[VIS,TYP],[("init handling","kfparser.KFVisitor.VisitSource_unit / VisitInit_decl")],(),["kfparser.Parse"])

p("C16","Statement text keeps its tokens",
"Each statement of an action or init block appears in the schema, in order, as text made of the same sequence of tokens as in the source; dropping insignificant white space and comments must not fuse neighbouring words into different tokens.",
["inputs"],"every statement, every adjacent pair of tokens the grammar allows in it",
"Tests look at a few statements in which neighbouring tokens happen not to fuse.",
[VIS],[("statement text extraction","kfparser.KFVisitor.VisitAction_stmt")],(),["kfparser.Parse"])

p("C17","The JSON form of a schema keeps the published field names and structure",
"Serialising a schema, or any part of it, yields indented JSON in which every field appears under its published name, with its published type and omission rule, and no field is lost, merged or renamed; serialisation errors are returned.",
["inputs"],"every schema value and every part of one",
"One test serialises one schema; field names and omission rules of the other parts are never compared.",
[SCH,TYP],[("field tags","schema/schema.go"),("serialisation","schema.astMarshal / ToJSON")],(),["schema.Schema.ToJSON"])

p("C18","Keyword lookup helpers agree with the language",
"Looking up a column type, attribute or index type by keyword accepts exactly the language's keywords (in any letter case), returns the same constant that parsing a source with that keyword yields, and returns an error for anything else.",
["inputs"],"every string passed to the lookup helpers",
"No existing test calls the lookup helpers.",
[TYP,VIS],[("keyword tables","schema.GetColumnType / GetAttributeType / GetIndexType")],(),["schema.GetColumnType","schema.GetAttributeType","schema.GetIndexType"])

p("C19","Parsing is a pure function of its input",
"Parsing the same source gives the same result and the same error every time, regardless of what was parsed before, of other parses running at the same time, and of time, randomness or environment; no parse changes state that another parse or a later use of a result can see.",
["inputs","schedules","histories"],"every input, every interleaving of concurrent parses, every history of earlier parses",
"Tests parse sequentially, each source once.",
[PARSER,VIS,VAL,EL,ANN,GP,GL],[("all parse state is created per call","kfparser.ParseKF"),("no shared mutable globals outside once-initialised grammar tables","whole parse path")],(),["kfparser.Parse","kfparser.ParseKF"])

p("C20","The command's exit status tells exactly how the run ended",
"The command exits 0 exactly when it parsed the one given file and wrote its output (or only showed its version or help), and otherwise exits with the distinct documented status of the step that failed: no input file, output directory, reading, parsing, serialising or writing. A source that fails to parse never produces or changes an output file.",
["inputs","fault_sequences"],"every argument list, and a failure of any step",
"No existing test runs the command.",
[CLI],[("step order and exit codes","cmd.rootCmd Run")],(),["process exit status"])

p("C21","A reported success means the output file holds exactly the JSON",
"When the command reports success, the file named after the input in the chosen directory holds exactly the serialised schema, with nothing left over from an earlier longer file, and any failure to open, write or close it has been reported as a write failure.",
["inputs","fault_sequences"],"every previous content of the output file, and a failure of open, write or close",
"No existing test runs the command or the file writer.",
[CLI],[("output writing","cmd.writeToFile")],(),["output file"])

p("C22","Command-line options take effect",
"Every option the command advertises changes its behaviour as described: the trace option switches on trace output, the output option selects the directory for the result, and the version option prints the version and does nothing else; without an option its documented default applies.",
["configurations"],"every combination of options",
"No existing test runs the command.",
[CLI],[("flag registration and use","cmd init / rootCmd Run")],(),["command line"])

p("C23","The browser binding reports exactly what the parser reports",
"The WebAssembly entry point returns an error text exactly when parsing or serialising fails, returns the same JSON text the library produces otherwise, and handles a wrong number of arguments without failing.",
["inputs"],"every call from the host page",
"The binding is only built for the browser target and has no tests.",
[WASM],[("parse and wrap","wasm.parse / wasm.parseWrapper")],(),["parseKuneiform"])

p("C24","Annotations on actions decode to exactly what was written",
"Decoding the annotation text of an action in an accepted schema yields its target and all its attributes, in order, with each name and value exactly as written, string values included in full whatever characters they contain; decoding any other text returns an error or a value but never panics.",
["inputs"],"every annotation the grammar accepts, and every other string for absence of panics",
"Tests decode seven short annotations without escapes or special characters.",
[ANN,VIS,GL],[("attribute pattern and splitting","utils.ParseAnnotation"),("annotation text","kfparser.KFVisitor.VisitAnnotation_decl")],(),["utils.ParseAnnotation"])

p("C25","The recogniser accepts exactly the published grammar",
"The tokenizer and the recogniser used for parsing implement the grammar published with them, rule for rule and token for token: same tokens, same alternatives, same repetition, with the end of the input required, so nothing outside the grammar is accepted and nothing inside it refused.",
["inputs"],"every rule, alternative and token of the grammar",
"Tests sample a small set of sentences; a wrong follow set or a missing token shows only on particular ones.",
[GP,GL,"kfgrammar/KuneiformParser.interp","kfgrammar/KuneiformLexer.interp"],[("generated rule functions","kfgrammar/kuneiform_parser.go"),("serialized automata","kfgrammar/*.go, *.interp")],(),["kfparser.Parse"])

p("C26","Parse-tree queries return exactly the matching children, in order",
"Each query on a parse-tree node (first, n-th or all children of a kind, a token of a kind) returns exactly the children of that kind in source order or nothing, and visiting a node reaches the handler for exactly its kind.",
["inputs"],"every node kind and every query on it",
"Tests see only those queries the sample sources happen to need; a wrong kind in one of some hundred accessors can go unnoticed.",
[GP,"kfgrammar/kuneiformparser_visitor.go","kfgrammar/kuneiformparser_base_visitor.go"],[("accessor and dispatch methods","kfgrammar/kuneiform_parser.go")],(),["kfgrammar contexts"])

p("C27","Tracing never changes the outcome of a parse",
"For every source, parsing with tracing switched on returns the same schema and the same error as parsing with it off; tracing only adds output.",
["inputs","configurations"],"every source in both modes",
"Tests never compare the two modes.",
[PARSER,VIS],[("mode only guards printing","kfparser.ParseKF / KFVisitor.Visit")],(),["kfparser.ParseKF"])

p("C28","Parsing cost and stack use stay bounded on adversarial input",
"For any source text, including deeply nested or pathological ones, parsing finishes within time and stack use that grow at most polynomially with the size of the text, so an input of reasonable size cannot exhaust the process.",
["inputs"],"every source text up to a given size",
"Tests use short flat sources.",
[PARSER,GP],[("recursive descent and adaptive prediction","kfgrammar, antlr runtime")],(),["kfparser.Parse"])

p("C29","Forbidden SQL is rejected inside actions",
"An action containing SQL that the language documentation forbids (data-definition statements, non-deterministic or mathematical functions, current-time keywords, unrestricted joins) is never accepted.",
["inputs"],"every SQL statement with a forbidden construct anywhere inside",
"Tests contain a few forbidden statements.",
[VAL,"docs/syntax.md"],[("SQL parsing with the platform's restrictions","dependency github.com/kwilteam/kwil-db/parse")],(),["kfparser.Parse"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
