#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
R='crates/postgresql-cst-parser/src/'
PG='crates/parser-generator/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","The syntax tree is lossless",
 "Whenever parsing succeeds, concatenating the text of all tokens of the returned tree from left to right reproduces the input byte for byte: every keyword, literal, operator, comment and whitespace run appears exactly once and in source order.",
 ["inputs"],"every input string that parses, including leading, trailing and interleaved comments and whitespace and empty input",
 "test_all only prints trees of ten SQL files to text files without comparing anything; no test compares a tree's text with its input.",
 [R+'cst.rs',R+'lexer.rs'],
 [("driver loop collects comments and whitespace gaps as extras and tokens as stack nodes",R+'cst.rs::parse'),("tree emission interleaves extras with leaves",R+'cst.rs::Parser::parse_rec, Parser::parse')],
 ["ResolvedNode::text of the root"],[("last_pos","end of the last consumed token",R+'cst.rs::parse'),("extras","comment and whitespace pieces not yet emitted",R+'cst.rs::parse')])
p("C02","Parsing never panics",
 "For every input string, parsing returns either a tree or an error value; it never panics (stack exhaustion by unbounded nesting is the subject of C17).",
 ["inputs"],"every UTF-8 string, valid SQL or not, including empty input, malformed literals, numeric overflow, non-ASCII bytes after quotes and backslashes, and tokens the grammar does not know",
 "Tests parse ten well-formed files and six malformed literals; panics sit on inputs outside that sample.",
 [R+'cst.rs',R+'lexer.rs',R+'lexer/util.rs',R+'lexer/lexer_ported.rs',R+'lexer/generated.rs',R+'parser.rs'],
 [("each panicking operation is guarded by a fact about the matched text, the tables or the parser stack",R+'lexer/generated.rs::parse_token and '+R+'cst.rs::parse')],["parse()"])
p("C03","Lexing and parsing always terminate",
 "For every input, scanning advances through the text and the parser performs only finitely many reductions between two token consumptions, so parsing finishes after a number of steps bounded by the input.",
 ["inputs"],"every input string, every scanner mode and every parser state",
 "A missing advance or a reduction cycle in one automaton state only hangs on an input reaching it; tests reach a fraction of the 6473 states and no error states.",
 [R+'lexer.rs',R+'lexer/generated.rs',R+'lexer/util.rs',R+'cst.rs',R+'parser.rs'],
 [("every scanner step consumes a byte, or changes mode and returns a token, or stops",R+'lexer/generated.rs::parse_token'),("the reduction graph of the LR tables is acyclic on a fixed lookahead",R+'parser.rs'),("consumed tokens are removed from the stream on shift and on comment handling",R+'cst.rs::parse')],["parse()"])
p("C04","Accepted language and structure are those of the PostgreSQL grammar",
 "A token sequence is accepted exactly when the bundled grammar (with its precedence declarations resolved as bison resolves them) derives it, and the tree records exactly the reductions of that grammar's LALR(1) automaton, in order, with every right-hand-side symbol as a child.",
 ["inputs"],"every token sequence, i.e. every (parser state, lookahead) pair and every (state, nonterminal) pair of the automaton",
 "The tables have 6473 states times more than 500 lookaheads; the sample SQL files touch a small fraction and outputs are never compared.",
 [R+'parser.rs',R+'cst.rs','crates/parser-generator/resources/gram.y'],
 [("compressed ACTION/GOTO tables and rule table",R+'parser.rs'),("table lookup and decoding",R+'cst.rs::lookup_parser_action, lookup_goto_state, parse')],["node structure of the tree","Ok/Err of parse()"])
p("C05","Kinds of nodes and tokens name the right grammar symbols",
 "In every tree, a node's public kind is the left-hand side nonterminal of the production it was reduced by and a token's public kind is the terminal the scanner produced (comments and whitespace having their own kinds); the numbering used by the parser tables, the conversion functions and the public kind enumeration agree for every symbol.",
 ["inputs"],"every terminal, nonterminal and trivia kind and every production",
 "A swapped or shifted entry among more than 1200 symbols only shows on inputs using that symbol, and no test compares kinds beyond three doc-test examples.",
 [R+'parser.rs',R+'syntax_kind.rs',R+'cst.rs',R+'lexer.rs'],
 [("token and rule name to component id conversions",R+'parser.rs::token_kind_to_component_id, rule_name_to_component_id'),("SyntaxKind order and from_raw/into raw conversions",R+'syntax_kind.rs')],["SyntaxNode::kind, SyntaxToken::kind"])
p("C06","Scanner picks the longest match of the earliest PostgreSQL rule",
 "At every position and in every scanner mode of the default build, the scanner selects the rule and length that the bundled flex specification prescribes: the longest prefix matched by any rule of that mode, ties going to the earliest rule, end of input handled by the end-of-file rules.",
 ["inputs"],"every scanner mode and every remaining input, i.e. every reachable pair of (generated DFA state, specification state) and every byte",
 "The transition tables have tens of thousands of entries and rarely used modes (Unicode escapes, bit strings, dollar quotes) that the sample files never enter.",
 [R+'lexer/generated.rs',R+'lexer/util.rs','crates/lexer-generator/resources/scan.l'],
 [("per-mode DFA transition and accept tables",R+'lexer/generated.rs::dfa'),("longest-match loop",R+'lexer/util.rs::find_match_len')],["token boundaries and kinds"])
p("C07","Scanner actions realise PostgreSQL's modes and token kinds",
 "When a rule of the flex specification fires, the scanner performs that rule's prescribed effect: it enters the right mode (comments nest, a quoted string may continue after a newline, a dollar quote ends only at its own tag, a failed match is pushed back by the right amount), keeps or drops the matched text, and returns the prescribed token kind or none.",
 ["inputs"],"every rule of the specification and every scanner mode, comment depth, saved mode and literal content",
 "Nested comments, string continuation, bit/hex/Unicode strings and dollar tags that differ from the opening one are not exercised with any assertion.",
 [R+'lexer/generated.rs',R+'lexer/lexer_ported.rs',R+'lexer/util.rs','crates/lexer-generator/resources/scan.l'],
 [("rule actions",R+'lexer/generated.rs::parse_token'),("mode, push-back and literal helpers",R+'lexer/util.rs, '+R+'lexer/lexer_ported.rs')],["token kinds and boundaries"])
p("C08","Exactly the PostgreSQL keywords are keywords, case-insensitively",
 "An unquoted word is scanned as a keyword token exactly when its ASCII-lowercase form is in the bundled keyword list, and then as that keyword's grammar token; every keyword the list names exists in the grammar's terminal numbering.",
 ["inputs"],"every word in every letter case and every entry of the keyword list",
 "Tests use a few dozen of about 490 keywords and never check that non-keywords are identifiers.",
 [R+'lexer/generated.rs',R+'lexer/util.rs','crates/lexer-generator/resources/kwlist.h'],
 [("keyword map",R+'lexer/generated.rs::get_keyword_map'),("case folding lookup",R+'lexer/util.rs::get_keyword'),("identifier rule",R+'lexer/generated.rs::parse_token')],["token kinds"])
p("C09","Two-token lookahead reclassifies exactly PostgreSQL's five keywords",
 "Before parsing, a keyword FORMAT, NOT, NULLS, WITH or WITHOUT becomes its lookahead variant exactly when the next token that is not a comment is one of the followers PostgreSQL's own token filter lists for it; no other token is changed and token texts and positions stay the same.",
 ["inputs"],"every token sequence, every keyword pair, any number of comments between the two tokens, and the pair at the very end of the input",
 "No test asserts on any of these pairs, nor with comments in between or at the end of the input.",
 [R+'lexer/lexer_ported.rs',R+'cst.rs','crates/lexer-generator/resources/parser.c'],
 [("token filter",R+'lexer/lexer_ported.rs::init_tokens'),("applied to all tokens before parsing",R+'cst.rs::parse')],["acceptance and kinds of e.g. NOT IN, WITH TIME ZONE, NULLS FIRST"])
p("C10","Comments and whitespace are kept apart from grammar",
 "Comments never influence which productions are recognised or whether parsing succeeds; each comment appears in the tree as its own token of its own kind, and each whitespace token covers exactly one gap between two neighbouring tokens (or before the first or after the last).",
 ["inputs"],"every placement of line and block comments and whitespace in every token sequence",
 "Tests do not compare a commented input with the same input without comments.",
 [R+'cst.rs',R+'lexer.rs',R+'lexer/lexer_ported.rs'],
 [("comments bypass the action table",R+'cst.rs::parse'),("extras are emitted before the first leaf that starts after them",R+'cst.rs::Parser::parse_rec')],["tree tokens"])
p("C11","A syntax error is reported at the offending token",
 "When the token sequence is not derivable, parsing returns a parse error whose start and end are the span of the first token that cannot continue the parse, or the end of the input if the input stopped too early; the position in its message is that same start.",
 ["inputs"],"every rejected token sequence, with and without comments before the offending token",
 "No test checks the position of any parse error.",
 [R+'cst.rs',R+'lexer/parser_error.rs'],
 [("error construction in the driver loop",R+'cst.rs::parse')],["ParserError::ParseError"])
p("C12","Every malformed token is reported as its own scan error",
 "Each malformed construct (unterminated comment, string, bit, hexadecimal, dollar-quoted or identifier quote; zero-length quoted identifier; bad numeric, Unicode-escape or operator forms) makes parsing return the error PostgreSQL's scanner prescribes for it, and no scan error is ever dropped or turned into a tree.",
 ["inputs"],"every input containing a malformed token, in every scanner mode",
 "Six error inputs are tested out of some twenty error-raising rules; swallowing any other error would not be noticed.",
 [R+'lexer/generated.rs',R+'lexer.rs',R+'cst.rs','crates/lexer-generator/resources/scan.l'],
 [("error-raising rule actions",R+'lexer/generated.rs::parse_token'),("propagation",R+'lexer.rs::lex, '+R+'cst.rs::parse')],["ParserError"])
p("C13","Parsing is a pure function of its input",
 "The result of parsing depends only on the input string and the enabled features: it reads no clock, environment, file, random source or global mutable state, writes nothing, and does not depend on hash iteration order, so equal inputs always give equal results.",
 ["inputs","histories","schedules"],"every input, every previous sequence of calls and any concurrent calls",
 "A run-to-run or call-to-call difference does not show in tests that call each input once per process.",
 [R+'lib.rs',R+'cst.rs',R+'lexer.rs',R+'lexer/util.rs',R+'lexer/lexer_ported.rs',R+'lexer/generated.rs',R+'parser.rs'],
 [("all state lives in values created by the call",R+'cst.rs::parse, '+R+'lexer/util.rs::Lexer::new')],["parse()"])
p("C14","The parser is free of unsafe code and shared mutable state",
 "The shipped crate contains no unsafe code except the one checked conversion from raw kind numbers, no mutable statics or interior-mutable globals, and its results and errors can be sent to and shared between threads.",
 ["schedules","programs"],"every function of the shipped crate and every safe client program",
 "Data races and undefined behaviour need schedules and layouts tests do not produce; Send and Sync are never asserted.",
 [R+'lib.rs',R+'cst.rs',R+'syntax_kind.rs'],
 [("plain owned data; transmute in the Syntax implementation guarded by an assertion",R+'syntax_kind.rs')],["public types"])
p("C15","The regex build tokenises exactly like the default build",
 "With the alternative regex-matching feature enabled, every input is cut into the same tokens with the same kinds, or fails with the same error, as in the default build.",
 ["inputs","configurations"],"every scanner mode, every rule pattern and every rule action of both builds",
 "Both builds run the same few tests; no test compares them with each other, and rare modes are untested in both.",
 [R+'lexer/generated.rs',R+'lexer/util.rs'],
 [("rule list of the regex build",R+'lexer/generated.rs::get_rules'),("second copy of the rule actions",R+'lexer/generated.rs::parse_token (regex-match)'),("longest-match selection",R+'lexer/util.rs::find_match_len (regex-match)')],["parse() under both features"])
p("C16","Dropping empty nodes drops nothing else",
 "With the default feature that removes empty nodes, a node is left out exactly when it covers no text; nodes that cover text, all tokens and their order are the same as without the feature, and without the feature every reduction has its node.",
 ["inputs","configurations"],"every parse tree under both settings of the feature",
 "No test compares the trees of the two configurations.",
 [R+'cst.rs'],[("skip test at the start of node emission",R+'cst.rs::Parser::parse_rec'),("positions given to empty reductions",R+'cst.rs::parse')],["tree structure"])
p("C17","Deep or long input does not exhaust the stack",
 "The call depth needed to parse an input and to release its result is bounded by a constant, so long lists and deeply nested expressions are parsed or rejected without aborting the process.",
 ["inputs"],"every input length and nesting depth",
 "Tests parse only short, shallow statements.",
 [R+'cst.rs'],[("recursive emission of nodes",R+'cst.rs::Parser::parse_rec'),("recursive ownership of nodes",R+'cst.rs::Node')],["process survival"])
p("C18","Numeric literals get PostgreSQL's constant kind",
 "A decimal, hexadecimal, octal or binary integer literal, with or without digit-group underscores, is an integer constant exactly when its value fits in 32 bits signed, and a float constant otherwise; literals with a fraction or exponent are float constants.",
 ["inputs"],"every numeric literal in each radix, with and without underscores, on both sides of the 32-bit limit",
 "Tests contain a few small decimal integers.",
 [R+'lexer/lexer_ported.rs',R+'lexer/generated.rs'],
 [("integer literal classification",R+'lexer/lexer_ported.rs::process_integer_literal'),("radix passed by each integer rule",R+'lexer/generated.rs::parse_token')],["token kinds; acceptance where the grammar wants an integer"])
p("C19","The table generator resolves conflicts as bison does",
 "When the table generator meets a shift/reduce conflict it compares the precedence of the rule with that of the lookahead: lower rule precedence shifts, higher reduces, equal precedence reduces for left, shifts for right and is an error for nonassociative declarations, and without precedence on either side it shifts; among reductions the earliest rule wins.",
 ["programs"],"every grammar, every precedence relation and every associativity",
 "No test builds a grammar with precedence declarations and inspects the resulting actions.",
 [PG+'parser_generator/lalr.rs',PG+'parser_generator/bison.rs'],
 [("conflict resolution",PG+'parser_generator/lalr.rs::build_lalr1_parse_table'),("precedence declarations numbered in file order",PG+'parser_generator/bison.rs')],["action table"])
p("C20","Generator and parser agree on the table encoding",
 "The parser decodes every table entry as the generator encodes it: the same markers for error, default reduction and missing goto, the same offsets and signs for shift, reduce and accept, and the same index arithmetic, so that no state or rule number can be mistaken for another.",
 ["programs","inputs"],"every action and goto entry the generator can emit for a grammar whose numbers fit the table's integer type",
 "Generator and parser are separate programs; no test runs one on the other's output.",
 [PG+'parser_generator.rs',R+'cst.rs','crates/parser-generator/templates/parser_template.rs'],
 [("encoding",PG+'parser_generator.rs'),("decoding",R+'cst.rs::lookup_parser_action, lookup_goto_state, parse')],["generated tables"])
p("C21","The generators are deterministic",
 "Running a generator on the same resource files always emits the same sources: nothing that reaches the output depends on hash iteration order, time, environment or randomness.",
 ["programs","histories"],"every run of the lexer and parser generators",
 "Tests never run a generator twice nor compare its output with the committed files.",
 [PG+'parser_generator.rs',PG+'parser_generator/lalr.rs','crates/lexer-generator/src/lexer_generator.rs','crates/automata/src/dfa.rs','crates/automata/src/nfa.rs'],
 [("ordered collections wherever iteration order reaches the output",PG+'parser_generator.rs, lalr.rs, crates/automata/src/dfa.rs')],["generated files"])
p("C22","The regular-expression compiler honours its operators",
 "For every pattern of the flex dialect used by the scanner specification, concatenation, alternation, optional, star, plus, counted repetition, character classes, escapes, references to named definitions and end-of-file anchors are compiled into automata that accept exactly the strings the operator denotes; the deterministic automaton of a lexer state accepts exactly what some rule of that state matches, with the earliest such rule.",
 ["programs","inputs"],"every pattern and every string",
 "Unit tests match a dozen short patterns against a handful of strings.",
 ['crates/automata/src/regexp.rs','crates/automata/src/nfa.rs','crates/automata/src/dfa.rs'],
 [("Thompson construction",'crates/automata/src/nfa.rs'),("subset construction",'crates/automata/src/dfa.rs')],["generated scanner tables"])
p("C23","The generator's copy of the scanner behaves like the shipped one",
 "The scanner embedded in the parser generator (which reads the grammar's terminals with it) and the shipped scanner cut every text into the same tokens: same tables, same rule actions, same keyword map.",
 ["inputs","programs"],"every scanner mode, rule, table entry and keyword of both copies",
 "No test compares the two copies, and each crate's tests only run its own.",
 [PG+'parser_generator/lexer.rs',PG+'parser_generator/lexer/generated.rs',PG+'parser_generator/lexer/lexer_ported.rs',PG+'parser_generator/lexer/util.rs',R+'lexer.rs',R+'lexer/generated.rs'],
 [("both copies come from one template",'crates/lexer-generator/templates/lex_template.rs')],["tokens"])
p("C24","The WebAssembly binding answers every input",
 "The browser entry point returns a text for every input: the rendered tree if parsing succeeds and a text describing the error otherwise; it never traps on a parse error.",
 ["inputs"],"every input string",
 "The wasm crate has no test that runs here and none with invalid SQL.",
 ['crates/postgresql-cst-parser-wasm/src/lib.rs'],[("both arms of the parse result are rendered",'crates/postgresql-cst-parser-wasm/src/lib.rs::parse_sql')],["parse_sql"])
p("C25","Operators end where PostgreSQL ends them",
 "A run of operator characters is cut before an embedded comment start, loses trailing plus and minus signs unless it contains a character outside the SQL operator set, becomes the single-character, comparison or generic operator token prescribed for what is left, and is rejected when 64 bytes or longer.",
 ["inputs"],"every run of operator characters",
 "The sample files contain a few one- and two-character operators.",
 [R+'lexer/generated.rs','crates/lexer-generator/resources/scan.l'],[("operator rule",R+'lexer/generated.rs::parse_token')],["token kinds and boundaries"])
p("C26","Token spans are exact, ordered and within the input",
 "Every token the scanner delivers covers exactly the text of its construct from its first to its last character: start not after end, both inside the input and on character boundaries, text equal to the input between them, and every token starting at or after the end of the previous one.",
 ["inputs"],"every input, including tokens assembled from several scanner steps such as strings, comments, quoted identifiers and pushed-back matches",
 "No test inspects a token span.",
 [R+'lexer.rs',R+'lexer/lexer_ported.rs',R+'lexer/generated.rs',R+'lexer/util.rs'],
 [("token start recorded by the first rule of a construct, end recorded by the rule that returns it",R+'lexer/lexer_ported.rs::set_yylloc, set_yyllocend'),("span choice per token kind",R+'lexer.rs::lex')],["token ranges in the tree and in errors"])
p("C27","Unicode escapes in strings are validated as PostgreSQL does",
 "In escape strings, a surrogate pair is accepted only as first then second half, every other surrogate, a zero or an out-of-range code point is rejected with the prescribed error, and every other code point is accepted.",
 ["inputs"],"every four- and eight-digit Unicode escape and every pair of escapes",
 "Four escape inputs are tested.",
 [R+'lexer/lexer_ported.rs',R+'lexer/generated.rs'],
 [("surrogate and validity predicates",R+'lexer/lexer_ported.rs'),("escape rules",R+'lexer/generated.rs::parse_token')],["ParserError, acceptance"])
p("C28","Committed parser and scanner are what the generators emit",
 "Running the generators on the committed resource files reproduces the committed parser tables, kinds and scanner sources byte for byte.",
 ["programs"],"both generators on the committed resources",
 "No test runs the generators and compares.",
 [PG+'main.rs','crates/lexer-generator/src/main.rs'],[("build.sh runs both generators",'build.sh')],["git diff after regeneration"])
p("C29","Parsing takes time linear in the input",
 "The time to parse grows linearly with the length of the input, for every input.",
 ["inputs"],"every input length",
 "Benchmarks measure one file.",
 [R+'cst.rs',R+'lexer.rs'],[("single pass scanner and LR parser",R+'cst.rs::parse')],["wall time"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80, x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
