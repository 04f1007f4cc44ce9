#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook))
    assert len(title) <= 80, title
    P.append(d)

LEX="ratel/src/lexer/mod.rs"; PEX="ratel/src/parser/expression.rs"; PST="ratel/src/parser/statement.rs"; PNE="ratel/src/parser/nested.rs"; PFN="ratel/src/parser/function.rs"
GEN=["ratel-codegen/src/lib.rs","ratel-codegen/src/expression.rs","ratel-codegen/src/statement.rs","ratel-codegen/src/function.rs"]
AG=["ratel/src/astgen/mod.rs","ratel/src/astgen/expression.rs","ratel/src/astgen/statement.rs","ratel/src/astgen/function.rs","ratel/src/astgen/value.rs"]
VIS=["ratel-visitor/src/lib.rs","ratel-visitor/src/expression.rs","ratel-visitor/src/statement.rs","ratel-visitor/src/function.rs"]

p("C01","Parsing any text terminates with an AST or a non-empty error list",
  "For every UTF-8 text, parsing returns - without panicking, aborting, hanging or allocating without bound - either a module or a list with at least one error. A module that was returned can be printed, serialized to ESTree, code-generated (pretty and minified), visited and scope-analysed, again without panicking or hanging; a failure of the writer it is printed to is passed on.",
  ["inputs"],"all UTF-8 strings (bounded only by nesting depth, which is limited by the stack)",
  "Tests parse a few hundred well-formed snippets; truncated, unterminated, garbage or non-ASCII inputs are barely sampled, and a hang or panic needs one specific byte sequence.",
  [LEX,"ratel/src/lexer/labels.rs","ratel/src/lexer/util.rs","ratel/src/parser/mod.rs",PEX,PST,PNE,PFN]+AG+GEN+VIS,
  [("byte dispatch tables; EndOfProgram sticks at the NUL terminator","ratel/src/lexer/mod.rs consume, labels.rs"),("error recovery of the parser","ratel/src/parser/mod.rs error(), parse()")],
  ["ratel::parse","serde_json::to_string(&module)","ratel_codegen::codegen","Visitable::visit_with","ratel_transformer::scope::analyze"])

p("C02","The lexer never reads outside the source text",
  "Whatever the source text and whatever sequence of lexer operations a client performs on it (next token, read a regular expression, continue a template), the lexer reads no byte before the start of the text or beyond its end. Every token slice it hands out lies inside the text and starts and ends on a character boundary.",
  ["inputs","histories"],"all source texts x all sequences of public lexer operations",
  "An over-read normally hits adjacent arena memory and returns plausible results, so an assertion on results does not see it; it needs an unterminated construct exactly at the end of the text.",
  [LEX,"ratel/src/lexer/labels.rs","ratel/src/lexer/util.rs"],
  [("NUL terminator is the only bound check","ratel/src/lexer/mod.rs current_byte/read_byte/bump"),("from_ptr / token slices","ratel/src/lexer/mod.rs token_as_str, slice_source")],
  ["Lexer::new / Lexer::from_ptr + consume/read_regular_expression/read_template_kind"])

p("C03","Token kinds and spans are exactly those of ECMAScript",
  "For every valid source text of the supported token grammar, the lexer produces exactly the tokens of the ECMAScript lexical grammar (longest match, keywords versus identifiers, punctuators, numbers, strings, templates, regular expressions, comments and white space skipped), and each token's byte span is exact. The line-terminator-before-token information used for semicolon insertion is right for each of LF, CR, CRLF, U+2028 and U+2029, also inside or around comments.",
  ["inputs"],"all source texts over the token grammar",
  "Tests check one spelling per token mostly in isolation; longest-match, keyword-prefix and adjacency errors depend on which two or three characters meet.",
  [LEX,"ratel/src/lexer/labels.rs","ratel/src/lexer/token.rs","ratel/src/lexer/util.rs"],
  [("byte handler table and keyword matching macros","ratel/src/lexer/mod.rs"),("asi flag","ratel/src/lexer/mod.rs consume/asi")],
  ["Lexer::token, Lexer::loc, Lexer::asi, Lexer::token_as_str"])

p("C04","Literal values survive serialization",
  "For every numeric, string, boolean, null, regular expression and template literal the ESTree output carries the value JavaScript gives that literal: the number denoted by any decimal, fractional, exponent, hexadecimal, octal or binary spelling, the exact pattern and flags of a regular expression, the exact text of strings and templates.",
  ["inputs"],"all literal spellings",
  "Tests serialize a handful of literals; number spellings (leading dot, trailing dot, exponent signs, long digit strings, upper/lower-case prefixes) form a large product space.",
  [AG[4],"ratel/src/lexer/mod.rs","ratel/src/lexer/util.rs","ratel/src/ast/literal.rs"],
  [("parse_number / parse_integer / string value","ratel/src/astgen/value.rs"),("number scanners","ratel/src/lexer/mod.rs")],
  ["serde_json::to_value(&module)"])

p("C05","Expressions are parsed with ECMAScript precedence and associativity",
  "Every expression of the supported language is parsed into the tree the ECMAScript grammar defines: operator precedence and associativity, prefix/postfix/conditional/assignment/sequence/arrow operators, member access, calls, `new`, templates and tagged templates, object, array, function, class and arrow literals. Parentheses only group, and the content of every list (arguments, elements, properties, parameters) is complete and in order.",
  ["programs"],"all expressions of the supported grammar",
  "The parser is a hand-written table-driven Pratt parser: an operator's behaviour depends on the pair of neighbouring operators and nesting context, a quadratic to cubic number of combinations of which tests hold a few dozen.",
  [PEX,PNE,PFN,"ratel/src/parser/mod.rs","ratel/src/ast/operator.rs","ratel/src/ast/expression.rs"],
  [("binding power lookup tables","ratel/src/parser/nested.rs"),("operator binding powers","ratel/src/ast/operator.rs")],
  ["ratel::parse -> Module::body"])

p("C06","Statements and declarations are parsed to the tree they denote",
  "Every statement and declaration of the supported language is parsed into the tree the ECMAScript grammar defines: bodies, tests, labels, cases, handlers, loop heads, declaration kinds, destructuring patterns with defaults and rests, parameters, class members, function and generator kinds, imports. Nothing of the source is dropped, duplicated or attached to the wrong construct (for example a dangling else).",
  ["programs"],"all statements of the supported grammar, nested to any depth",
  "Tests hold one or two examples per statement kind; optional parts (each clause present or absent) times nesting is a product they do not cover.",
  [PST,PFN,"ratel/src/parser/mod.rs","ratel/src/ast/statement.rs","ratel/src/ast/function.rs"],
  [("statement handlers","ratel/src/parser/statement.rs"),("patterns and parameters","ratel/src/parser/mod.rs, function.rs")],
  ["ratel::parse -> Module::body"])

p("C07","Layout does not matter except where ECMAScript says so",
  "Inserting or removing white space, line breaks and comments between the tokens of a program changes the parsed tree only where ECMAScript's automatic semicolon insertion says so. Semicolons are inserted exactly there - at an offending token after a line break, before a closing brace, at the end, after a restricted keyword (return, break, continue, throw) or before a postfix operator on a new line - and missing anywhere else, the program is rejected.",
  ["programs"],"all programs x all ways to separate adjacent tokens",
  "Tests have one layout per program; insertion rules depend on the pair of tokens around each gap and on the separator used.",
  [LEX,"ratel/src/parser/mod.rs",PST,PEX,PNE],
  [("asi()/expect_semicolon","ratel/src/lexer/mod.rs, ratel/src/parser/mod.rs"),("restricted productions","ratel/src/parser/statement.rs; postfix in nested.rs")],
  ["ratel::parse"])

p("C08","Malformed programs are rejected",
  "A text in which a required token is missing, an extra token is present, brackets do not balance, a literal, comment or template is not terminated, an assignment target is not assignable or a stray token follows a complete construct is answered with errors, never silently with a module (declarations without a required initialiser excepted, and accessors' parameters are not counted). Conversely, a program of the supported language is never rejected.",
  ["inputs"],"all texts that no reading of the ECMAScript grammar accepts; all supported programs",
  "Negative tests exist for a handful of inputs; every position of every construct can lose or gain a token.",
  ["ratel/src/parser/mod.rs","ratel/src/parser/macros.rs","ratel/src/parser/error.rs",PEX,PST,PFN,LEX],
  [("expect!/unexpected_token!/error recovery","ratel/src/parser/macros.rs, error.rs")],
  ["ratel::parse"])

p("C09","Every AST node carries its own source location",
  "In every AST that parsing returns, each node's location lies inside the source on character boundaries and is exact. Identifiers, names, literals, patterns, parameters, class members, cases, clauses and blocks are located at their own text; an operator expression reaches from its first operand's start to its last operand's end, where parentheses around an expression belong to no location; a call starts at its opening parenthesis; a statement reaches from its first token to the end of its last part, except that an expression statement which begins with anything but a name is located where its expression is. What surrounds a node never changes which text its location selects.",
  ["programs"],"all accepted programs",
  "Location tests compare a few JSON trees; a location error needs particular combinations of nesting, spacing and parentheses.",
  [PEX,PST,PNE,PFN,"ratel/src/ast/node.rs","ratel/src/parser/mod.rs"],
  [("alloc_at_loc / start,end bookkeeping","ratel/src/parser/*.rs")],
  ["Node.start/Node.end", "ESTree start/end"])

p("C10","Errors point at the offending text and render it",
  "Every error returned for a text has start <= end <= length of the text on character boundaries, and its raw text is exactly that slice; errors are reported in source order and, unless the text only has an invalid assignment target or parameter, the first one is not located after the token at which the text stops being a prefix of a valid program. Rendering it gives the right 1-based line and column, shows the line itself, and underlines exactly the token, for every text and position; a writer's failure is passed on.",
  ["inputs"],"all rejected texts; all (text, start, end) triples for rendering",
  "One formatting test on a one-line text; multi-line, tab, CRLF and non-ASCII texts and errors at either end of a line are not covered.",
  ["ratel/src/error.rs","ratel/src/parser/error.rs","ratel/src/parser/mod.rs",LEX],
  [("ToError / handle_error","ratel/src/parser/error.rs"),("Display for ParseError","ratel/src/error.rs")],
  ["ratel::parse(..).unwrap_err()","format!(\"{}\", ParseError)"])

p("C11","ESTree JSON is total, well-formed and faithful to the AST",
  "For every accepted program, serialization succeeds and yields an ESTree Program whose nodes have the standard type names and members, with operators, names, kinds, flags, child order and null for absent children all as in the source program. Each JSON node's start/end select its source text, and compact and pretty serialization denote the same JSON value. Any serializer gets the same data, with as many members in each node as are announced, and a writer's failure at any point is passed on at once.",
  ["programs"],"all accepted programs",
  "About a hundred snippets are compared; optional members, holes, flags and nested constructs have a product space they do not cover.",
  AG,
  [("Serialize implementations","ratel/src/astgen/*.rs")],
  ["serde_json::to_value(&module)","serde_json::to_string_pretty(&module)"])

p("C12","Pretty-printed code denotes the same program",
  "For every accepted program that is valid JavaScript, the pretty (non-minified) generated code is valid JavaScript and denotes the same program: parsing it gives the same tree up to redundant parentheses, empty statements and layout. In particular parentheses, spaces, semicolons and literals are kept wherever dropping or altering them would change the meaning.",
  ["programs"],"all accepted programs",
  "Codegen tests compare strings for about a hundred snippets; needed parentheses depend on the pair (parent operator, child operator, side) and token gluing on pairs of adjacent tokens.",
  GEN+["ratel/src/ast/expression.rs","ratel/src/ast/operator.rs"],
  [("binding_power / write_expression","ratel-codegen/src/expression.rs, ratel/src/ast/expression.rs"),("pretty writers","ratel-codegen/src/lib.rs")],
  ["ratel_codegen::codegen(&module, false)"])

p("C13","Minified code denotes the same program",
  "For every accepted program that is valid JavaScript, the minified generated code is valid JavaScript and denotes the same program: parsing it gives the same tree up to redundant parentheses, empty statements and layout. Removing white space never glues two tokens together and never changes where a statement ends.",
  ["programs"],"all accepted programs",
  "As for pretty output; in addition each pair of tokens that becomes adjacent without white space (`+ +a`, `a- -b`, `return/x/`, `in[`, `else a`) is a separate risk.",
  GEN+["ratel/src/ast/expression.rs","ratel/src/ast/operator.rs"],
  [("write_min / minified Generator","ratel-codegen/src/lib.rs"),("separators between statements","ratel-codegen/src/statement.rs")],
  ["ratel_codegen::codegen(&module, true)"])

p("C14","Generated code is a normal form: generating again changes nothing",
  "Generating code from generated code changes nothing: for every accepted program, codegen(parse(codegen(p))) = codegen(p) in each mode, and the pretty and minified outputs of a program generate each other. Neither output contains a comment, and the minified output is never longer than the pretty one.",
  ["programs"],"all accepted programs, both modes, chains of mode switches",
  "No test generates code from generated code.",
  GEN,
  [("Generator::minify","ratel-codegen/src/lib.rs")],
  ["ratel_codegen::codegen"])

p("C15","Object, class and pattern keys survive the pipeline",
  "Every property, method, accessor, field and pattern key - identifier, keyword used as a name, string, number or computed - keeps its text, its kind (plain, shorthand, method, get, set, constructor, static, computed, spread) and its order through parsing, serialization and both code generation modes. Duplicate keys are kept.",
  ["programs"],"all object literals, classes and patterns over the supported member kinds",
  "Member kinds combine with key kinds, static-ness, position and separators; tests hold a few of these combinations.",
  [PEX,PFN,"ratel/src/ast/function.rs","ratel/src/ast/expression.rs",AG[1],AG[3],GEN[1],GEN[3]],
  [("property_key / object_member / class_member","ratel/src/parser/expression.rs, function.rs")],
  ["ratel::parse","serde_json::to_value(&module)","ratel_codegen::codegen"])

p("C16","Visiting reports every node exactly once, properly nested",
  "For every program, a visitor is called exactly once for each expression and statement of the tree with that node and its own data, in source order with parents before children (empty and debugger statements have no callback; a do statement's body precedes its test). Parent push/pop and scope enter/leave calls balance like brackets, each node's parent on the stack is its nearest enclosing reported node, and every name use and declaration is reported once.",
  ["programs"],"all accepted programs",
  "Tests count scopes and references for a handful of programs; each node kind has several child slots and any of them can be missed or reordered.",
  VIS,
  [("Visitable implementations","ratel-visitor/src/*.rs")],
  ["Visitor trait callbacks"])

p("C17","Scope analysis lists exactly the names each scope uses and declares",
  "For every program, scope analysis returns a tree with one scope per function-like construct (functions, methods, arrow functions: kind Function) and per block, switch body and catch clause with its parameter (kind Block), none for classes, in source order and with the right kind and parent links. A `let` in the head of a for loop belongs to the scope the loop is in; member names, keys and labels are no references. Each scope lists exactly the names referenced and the names bound directly in it (variables, functions, classes, parameters including destructured, default and rest ones, catch bindings, imports), and whether `this` occurs directly in it.",
  ["programs"],"all accepted programs",
  "One test with one program.",
  ["ratel-transformer/src/scope.rs"]+VIS,
  [("ScopeAnalyzer","ratel-transformer/src/scope.rs"),("on_reference_use/on_reference_declaration","ratel-visitor/src/*.rs")],
  ["ratel_transformer::scope::analyze"])

p("C18","The ES2015 transform removes arrow functions and nothing else",
  "After the transform no arrow function is left anywhere in the module, each former arrow function is an anonymous function expression with the same parameters that returns the same expression or has the same body, and everything else in the module is unchanged. Transforming twice gives the same module as transforming once, and a module without arrow functions is unchanged.",
  ["programs"],"all accepted programs, arrow functions in any position and nested to any depth",
  "The one test of the transform is commented out or does not inspect the module after it.",
  ["ratel-transformer/src/lib.rs","ratel-transformer/src/es2015/mod.rs","ratel-transformer/src/es2015/arrow.rs"]+VIS,
  [("TransformerCtxt::swap","ratel-transformer/src/lib.rs"),("arrow visitor","ratel-transformer/src/es2015")],
  ["ratel_transformer::transform followed by ratel_codegen::codegen / Module::body"])

p("C19","The Wasm and Node bindings return exactly what the core returns",
  "For every text and flag, the bindings' transform, AST and ESTree entry points return the core library's result for that text - the generated code (pretty or minified as the flag says), the printed AST, or the ESTree JSON - when it parses. When it does not, they return (Wasm) or throw (Node) the rendering of every error in order and nothing else.",
  ["inputs"],"all texts x both flag values x all entry points",
  "The bindings have no Rust tests.",
  ["ratel-wasm/src/lib.rs","ffi/native/src/lib.rs"],
  [("format_errors, transform, generate_ast, generate_ast_estree","ratel-wasm/src/lib.rs; ffi/native/src/lib.rs")],
  ["the exported functions (Node's through a stand-in for neon)"])

p("C20","Results depend on the source text alone",
  "Parsing, serializing, generating and analysing a program gives the same result whatever was parsed before or concurrently, in whatever order results are consumed, whether other modules are alive or dropped, and on whichever thread. Serializing, generating or visiting never modifies the module.",
  ["histories","schedules"],"all interleavings of operations on several modules",
  "Every test uses one module once.",
  ["ratel/src/module.rs","ratel/src/parser/mod.rs","ratel-codegen/src/lib.rs","ratel/src/astgen/mod.rs"],
  [("each module owns its arena","ratel/src/module.rs"),("no global state","ratel, ratel-codegen")],
  ["ratel::parse","ratel_codegen::codegen","serde_json::to_value"])

p("C21","Size and position do not matter",
  "A construct is lexed, parsed, located, serialized and generated the same wherever it stands in the source: preceding it by any amount of white space, comments or other statements only shifts its locations by that amount, and a list, name, literal or chain may have any length. This holds across internal capacity limits such as the arena page size, 8-bit, 16-bit and word boundaries.",
  ["inputs"],"all programs x all padding lengths and list/token lengths",
  "All test sources are a few hundred bytes at most, far below the 64 KiB arena page.",
  [LEX,"ratel/src/parser/mod.rs","ratel/src/ast/node.rs","ratel/src/ast/mod.rs",GEN[0]],
  [("arena allocation of source, nodes and lists","toolshed::Arena via ratel/src/parser/mod.rs"),("u32 offsets","ratel/src/ast/node.rs")],
  ["ratel::parse","serde_json::to_value","ratel_codegen::codegen"])

root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P),"properties")
