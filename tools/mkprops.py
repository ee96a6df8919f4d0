#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P=[]
M="crates/postgresql-cst-parser/src/"
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","parse is total: every string gets a tree or an error, never a crash or a hang",
 "For every Unicode string, parsing terminates and returns either a tree or an error value: it never panics, aborts, overflows the stack, loops or exhausts memory. This includes malformed escapes, stray bytes and control characters, oversized literals, truncated constructs, deep nesting and very long inputs.",
 ["inputs"],"All UTF-8 strings (valid SQL, mutated SQL, truncations at every byte, adversarial character soup, deep nesting, very long lists).",
 "The tests parse ten snapshot files and six malformed strings; the panics that existed on the pinned tree (e'\\x41', 0b1, $99999999999, 'a'é, {) were reachable by one-line inputs none of them contains.",
 [M+"cst.rs",M+"lexer.rs",M+"lexer/generated.rs",M+"lexer/util.rs",M+"lexer/lexer_ported.rs",M+"parser.rs"],
 [("scanner actions return errors instead of unwrapping",M+"lexer/generated.rs"),("match lengths end on character boundaries",M+"lexer/util.rs find_match_len"),("LR driver error paths",M+"cst.rs parse")],
 ["return of parse()","process exit status/signal","per-input CPU time and address-space limit"])
p("C02","The tree is lossless: its text is exactly the input",
 "Whenever parsing succeeds, the text of the root equals the input byte for byte, and the leaf tokens, taken in document order, tile the input: each starts where the previous one ended and its text is the input slice at its reported range. No byte is lost, duplicated, reordered or altered, whatever the line endings, comments, non-ASCII text or trailing material.",
 ["inputs"],"Every accepted input, over all spellings, trivia placements and encodings of characters.",
 "Snapshot tests compare trees of ten files written in plain ASCII style; losslessness is about every token spelling and every placement of whitespace and comments relative to empty grammar nodes.",
 [M+"cst.rs",M+"lexer.rs"],
 [("extras queue of whitespace and comments interleaved with nodes",M+"cst.rs Parser::parse_rec"),("token value sliced from input",M+"lexer.rs lex")],
 ["root.text()","text_range() and text() of every token and node"])
p("C03","Every tree is the derivation that the PostgreSQL grammar prescribes",
 "Whenever parsing succeeds, ignoring whitespace and comments (and grammar nodes with no text, which the default build omits), every node together with the kinds of its children is an instance of a production of the published gram.y for that node's kind, starting from the grammar's start symbol. The whole tree is the unique derivation that an LALR(1) parser for that grammar, with its declared precedences, builds for the input's token sequence.",
 ["inputs"],"Every accepted token sequence, covering every production of the grammar and the reachable parser states and lookaheads.",
 "Snapshots exercise a few hundred of 3,400 productions and a fraction of 6,000+ parser states; a wrong table entry elsewhere goes unnoticed.",
 [M+"parser.rs",M+"cst.rs",M+"syntax_kind.rs","crates/parser-generator/resources/gram.y"],
 [("action/goto tables and rule table",M+"parser.rs"),("reduce step building nodes",M+"cst.rs parse"),("kind numbering shared by tables and enum",M+"syntax_kind.rs")],
 ["kind() of every node/token and parent-child structure"])
p("C04","Acceptance is exactly that of the PostgreSQL grammar",
 "An input that scans without lexical error is accepted if and only if its token sequence belongs to the language of gram.y as disambiguated by its precedence declarations and the one-token lookahead rewriting PostgreSQL applies before parsing. No grammatical statement is rejected and no ungrammatical one is accepted.",
 ["inputs"],"All token sequences; in particular every (parser state, next token) pair reachable from the start.",
 "Every snapshot is an accepted script, so no test checks that anything is rejected with a syntax error, and accepted coverage is a small part of the grammar.",
 [M+"parser.rs",M+"cst.rs",M+"lexer/lexer_ported.rs","crates/parser-generator/resources/gram.y"],
 [("compressed action table lookup with default actions",M+"cst.rs lookup_parser_action"),("token to terminal mapping",M+"parser.rs token_kind_to_component_id")],
 ["Ok/Err of parse()"])
p("C05","Operators bind with PostgreSQL's precedence and associativity",
 "In every accepted expression the tree groups operators by PostgreSQL's documented precedence table (OR, AND, NOT, IS, comparison, BETWEEN/IN/LIKE, other operators, + -, * / %, ^, AT TIME ZONE, COLLATE, unary minus, [ ], ::, .) and associativity. Non-associative chains such as a < b < c are rejected, and set operations group INTERSECT tighter than UNION and EXCEPT, which associate to the left.",
 ["inputs"],"All expressions built from unary, binary, postfix and range operators, any nesting and length; all set-operation chains.",
 "A few snapshots contain expressions, with no pairwise coverage of operator combinations; a swapped precedence line changes only the trees of particular pairs.",
 [M+"parser.rs","crates/parser-generator/resources/gram.y","crates/parser-generator/src/parser_generator/lalr.rs"],
 [("precedence declarations baked into the tables",M+"parser.rs")],
 ["nesting of a_expr/b_expr/select nodes","Ok/Err of parse()"])
p("C06","Tokens are recognised exactly as PostgreSQL's scanner recognises them",
 "Every input is split into tokens by the longest-match rules of PostgreSQL's scan.l: identifiers, keywords, numbers in every radix with underscores, all string forms and their continuation across newlines, dollar quotes, Unicode identifiers and strings, parameters, operators with their trailing + or - and embedded comment-start rules, and nested comments. Each token's kind and byte extent, and each lexical error, is the one those rules prescribe.",
 ["inputs"],"All character sequences in any lexical context, including maximal-munch boundaries, 64-byte operators and 32-bit integer limits.",
 "Six unit tests cover lexical errors and snapshots use ordinary tokens; boundary cases (operator stripping, junk after numbers, string continuation, integer overflow) are untested.",
 [M+"lexer/generated.rs",M+"lexer/util.rs",M+"lexer/lexer_ported.rs",M+"lexer.rs","crates/lexer-generator/resources/scan.l"],
 [("DFA tables per start condition",M+"lexer/generated.rs dfa"),("scanner actions",M+"lexer/generated.rs parse_token"),("longest match with end-of-input",M+"lexer/util.rs find_match_len")],
 ["kinds and ranges of leaf tokens","error values","position of the first offending token"])
p("C07","Comments and whitespace are kept verbatim and never change the structure",
 "Every comment appears in the tree exactly once, as one comment token with its exact text and of the right kind (block or line), and everything between tokens and comments appears as whitespace tokens made only of whitespace characters. Inserting, removing or changing whitespace or comments between two tokens, where it does not change the tokens themselves, leaves the rest of the tree and the verdict unchanged.",
 ["inputs"],"Every accepted or rejected input and every way to insert trivia at its token boundaries (incl. nested comments, CR/LF/FF/VT, start and end of input).",
 "Snapshot files contain a handful of comments in ordinary places.",
 [M+"cst.rs",M+"lexer.rs",M+"lexer/generated.rs"],
 [("comment tokens diverted to extras",M+"cst.rs parse"),("nested comment depth",M+"lexer/generated.rs xc state")],
 ["C_COMMENT, SQL_COMMENT and Whitespace tokens of the tree","non-trivia tree before and after the change"])
p("C08","Syntax errors point at the first offending token",
 "When parsing reports a syntax error, its byte range lies inside the input on character boundaries and is exactly the extent of the first token at which the tokens before it can no longer be extended to a grammatical input (or the empty range at the end of the input if only more input would help). The byte position inside the message equals the start of that range, and lexical errors carry PostgreSQL's message, detail and the position of the offending escape.",
 ["inputs"],"All rejected inputs: every viable prefix followed by every wrong token, with any trivia and multi-byte text before it.",
 "No test looks at the position of any syntax error.",
 [M+"cst.rs",M+"lexer/parser_error.rs",M+"lexer/generated.rs"],
 [("error construction from the lookahead token",M+"cst.rs parse"),("scanner error macros",M+"lexer/generated.rs ereport!/yyerror!")],
 ["fields of the returned error"])
p("C09","Context keywords are resolved by one token of lookahead, skipping trivia",
 "NOT before BETWEEN, IN, LIKE, ILIKE or SIMILAR; NULLS before FIRST or LAST; WITH before TIME or ORDINALITY; WITHOUT before TIME; and FORMAT before JSON take their special grammatical role, and no other occurrence of these words does. The decision depends only on the next significant token, whatever comments, whitespace, letter case or position in the script, and every such word is resolved independently.",
 ["inputs"],"Every occurrence of the five words followed by every token, with any trivia in between, anywhere in a script including at its end.",
 "Snapshots contain a few of these pairs, without intervening comments and without the negative cases.",
 [M+"lexer/lexer_ported.rs",M+"cst.rs"],
 [("token rewriting pass",M+"lexer/lexer_ported.rs init_tokens")],
 ["kinds of the tokens in the tree","Ok/Err and error position"])
p("C10","Parsing is a pure function of the input, in any history and on any thread",
 "The result of parsing a string depends on the string alone: repeating it, parsing other inputs (including failing ones) before it, or parsing concurrently from many threads gives the same tree or the same error every time, in every process. Trees may be read, cloned and dropped concurrently from several threads and every reader sees the same content.",
 ["schedules","histories"],"All call histories and thread interleavings of parse, traversal, clone and drop.",
 "Tests call parse once per input on one thread.",
 [M+"cst.rs",M+"lexer.rs",M+"lib.rs"],
 [("no state shared between calls",M+"cst.rs parse"),("tree nodes are Send+Sync","cstree")],
 ["result fingerprints per call from a multi-threaded event log"])
p("C11","No undefined behaviour, invalid memory access, data race or leak while parsing",
 "Parsing any input and then traversing, sharing across threads and dropping the result performs no out-of-bounds or use-after-free access, no other undefined behaviour and no data race. After the result is dropped all memory obtained for it has been released.",
 ["inputs","schedules"],"All inputs and all interleavings of concurrent readers, with kinds built from raw integers for every table entry.",
 "Tests run without sanitizers and on one thread; kinds are produced by transmuting table integers, where a bad entry is undefined behaviour and not a test failure.",
 [M+"cst.rs",M+"syntax_kind.rs",M+"parser.rs"],
 [("conversion of raw kind numbers to the kind enum",M+"cst.rs, "+M+"syntax_kind.rs derive(Syntax)"),("reference-counted tree nodes","cstree")],
 ["AddressSanitizer, ThreadSanitizer and Miri reports","live bytes of a counting allocator"])
p("C12","The alternative regex-based scanner behaves identically",
 "Built with the regex-based scanner instead of the table-driven one, the library returns the same tree or the same error, with the same positions, for every input.",
 ["inputs","configurations"],"All inputs under both builds.",
 "The suite runs ten snapshots with the feature on and never compares the two builds on anything else.",
 [M+"lexer/generated.rs",M+"lexer/util.rs","crates/lexer-generator/src/lexer_generator.rs"],
 [("second copy of matcher and actions",M+"lexer/generated.rs, "+M+"lexer/util.rs (regex-match)")],
 ["results of both builds on the same input"])
p("C13","The build that keeps empty nodes differs only by those nodes",
 "Built without the default option that removes empty nodes, the library accepts the same inputs and reports the same errors; its trees are lossless too and contain every symbol of every production, including those that derive nothing. Deleting the nodes without text from such a tree gives, whitespace and comments aside, exactly the default build's tree, and the default build's tree contains no node without text other than possibly the root.",
 ["inputs","configurations"],"All inputs under both builds, with comments and whitespace next to empty productions.",
 "The suite never builds without the option.",
 [M+"cst.rs"],
 [("empty-node test and byte positions given to empty reductions",M+"cst.rs Parser::parse_rec, parse")],
 ["trees of both builds"])
p("C14","The command-line and WebAssembly front ends report the result faithfully",
 "For every input, the WebAssembly entry point returns the debug rendering of the tree, or 'Error: ' followed by the debug form of the error, and the command-line program prints the same rendering on standard output, or the error on standard error and nothing on standard output, without panicking or altering the input. A well-formed tree rendering lists every node and token in order with its range and text, from which the input can be reconstructed.",
 ["inputs"],"All UTF-8 inputs given to either front end.",
 "No test calls either front end.",
 [M+"bin/parse.rs","crates/postgresql-cst-parser-wasm/src/lib.rs"],
 [("front-end wrappers",M+"bin/parse.rs; crates/postgresql-cst-parser-wasm/src/lib.rs")],
 ["stdout/stderr/exit status of the program","string returned by parse_sql"])
p("C15","Regenerating the parser from its sources gives the parser that is shipped",
 "Running the lexer generator and then the parser generator on the checked-in scan.l, keyword list and grammar produces sources that build, and the library built from them returns the same result as the checked-in library on every input. Running the generators twice gives byte-identical sources.",
 ["inputs","histories"],"All inputs, compared between the shipped library and one regenerated from the repository's own sources.",
 "No test runs the generators' output; the checked-in tables and the resources can drift apart unnoticed.",
 ["crates/lexer-generator/src/lexer_generator.rs","crates/lexer-generator/templates/lex_template.rs","crates/parser-generator/src/parser_generator.rs","crates/parser-generator/templates/parser_template.rs","crates/lexer-generator/resources/scan.l","crates/parser-generator/resources/gram.y"],
 [("generator pipeline","build.sh, crates/lexer-generator, crates/parser-generator")],
 ["results of shipped and regenerated builds on the same inputs","bytes of two generator runs"])
p("C16","Scanner automata match exactly the language of their regular expressions",
 "For every set of flex patterns with named definitions and start conditions, the automaton built for them finds, at every position of every byte string, the longest match and, among patterns matching that length, the first one, exactly as flex does. The nondeterministic and the deterministic automaton agree with that, end-of-input patterns included.",
 ["inputs","programs"],"All pattern sets in the supported flex syntax (classes, negation, escapes, quotes, repetition, counts, alternation, named definitions) and all byte strings.",
 "Unit tests try three tiny pattern sets.",
 ["crates/automata/src/regexp.rs","crates/automata/src/nfa.rs","crates/automata/src/dfa.rs","crates/automata/src/lib.rs"],
 [("regex parser","crates/automata/src/regexp.rs"),("Thompson construction","crates/automata/src/nfa.rs"),("subset construction","crates/automata/src/dfa.rs")],
 ["accepting pattern and match length on given strings"])
p("C17","The parser generator implements yacc semantics for any conflict-free grammar",
 "For every grammar in the yacc features that gram.y uses, whose symbols are all productive and reachable and whose only conflicts are shift/reduce conflicts resolved by precedence declarations (or by the default preference for shifting), the parser generated from it accepts exactly the sentences that bison's LALR(1) parser for the same grammar accepts, builds the same derivation, and stops at the same token on errors. This covers %left, %right, %nonassoc, %prec, empty alternatives and both recursions.",
 ["programs","inputs"],"All such grammars and all token strings over them.",
 "Tests only check that a few grammar fragments are read into the expected rules and that three small grammars build.",
 ["crates/parser-generator/src/parser_generator/bison.rs","crates/parser-generator/src/parser_generator/lalr.rs","crates/parser-generator/src/parser_generator.rs","crates/parser-generator/templates/parser_template.rs"],
 [("grammar reader","crates/parser-generator/src/parser_generator/bison.rs"),("LALR(1) construction and conflict resolution","crates/parser-generator/src/parser_generator/lalr.rs"),("table compression and emission","crates/parser-generator/src/parser_generator.rs")],
 ["behaviour of libraries built from generated sources"])
p("C18","The lexer generator turns any scan.l-style file into the scanner it describes",
 "For every flex file in the supported subset (definitions, exclusive start conditions, nested condition blocks, shared actions with |, end-of-input rules, comments between sections), the generated scanner performs, at each step, the action of the rule that flex would select for the current start condition; a file too big for the byte tables is refused, not written wrongly. The keyword list given to the generator is recognised completely and nothing else is.",
 ["programs","inputs"],"All such flex files and keyword lists, and all inputs to the generated scanner.",
 "One unit test reads a two-rule file; nothing generates a scanner from anything but the shipped scan.l.",
 ["crates/lexer-generator/src/flex_file.rs","crates/lexer-generator/src/lexer_generator.rs","crates/lexer-generator/templates/lex_template.rs"],
 [("flex file reader","crates/lexer-generator/src/flex_file.rs"),("table and action emission","crates/lexer-generator/src/lexer_generator.rs")],
 ["token stream of scanners built from generated sources"])
p("C19","Scripts are compositional: a statement parses the same in any script",
 "A script made by joining accepted statements with semicolons is accepted, and its tree contains each statement's own tree unchanged, in order, with its ranges moved by the statement's offset. If a statement is rejected at one of its tokens, the script whose earlier statements are all accepted is rejected with that same error moved by the statement's offset, whatever (lexically valid) text follows.",
 ["inputs","histories"],"All sequences of statements, of any length and mix, with empty statements and any trivia around the semicolons.",
 "Snapshot scripts are compared as a whole only; no test relates a script to its parts.",
 [M+"cst.rs",M+"lexer.rs",M+"lexer/lexer_ported.rs"],
 [("statement list productions",M+"parser.rs"),("token rewriting pass across statement boundaries",M+"lexer/lexer_ported.rs init_tokens")],
 ["statement subtrees of the script versus trees of the parts"])
p("C20","Letter case of keywords and identifiers never changes the parse",
 "Changing the case of ASCII letters outside string literals, quoted identifiers, dollar quotes and comments changes neither the verdict nor the structure, the kinds or the ranges of the tree; token texts are the respelled input's own text. Only ASCII letters fold: a word containing other letters is never a keyword.",
 ["inputs"],"All inputs and all case changes of their unquoted ASCII letters, including prefix letters of literals and hexadecimal digits; look-alike non-ASCII words.",
 "Snapshot files use one spelling each.",
 [M+"lexer/util.rs",M+"lexer/generated.rs"],
 [("keyword lookup folding",M+"lexer/util.rs get_keyword"),("prefix letters in scanner rules",M+"lexer/generated.rs")],
 ["tree kinds and ranges of both spellings"])
p("C21","Text inside literals, quoted names and comments is opaque",
 "Replacing the body of a string literal, bit string, dollar-quoted string, quoted identifier or comment by any other body that is valid for that form leaves the kinds and the nesting of the tree unchanged. In particular quotes, semicolons, comment markers, dollar signs, keywords and line breaks inside such a body never start or end anything.",
 ["inputs"],"All literal forms and all bodies valid for the form, at every place where the form can occur.",
 "Snapshot literals have short plain bodies.",
 [M+"lexer/generated.rs",M+"lexer/util.rs"],
 [("exclusive start conditions for each quoted form",M+"lexer/generated.rs")],
 ["tree with plain and with adversarial bodies"])
p("C22","Work and memory grow linearly with script length",
 "Parsing a script that repeats a statement, list item or expression term n times takes an amount of work and memory proportional to n. A long script costs about as much per statement as a short one.",
 ["inputs"],"All repeated units (statements, rows, list items, joins, chained operators, comments, literals) and all repetition counts.",
 "Tests parse files of a few kilobytes and look at no resource.",
 [M+"cst.rs",M+"lexer.rs",M+"lexer/util.rs",M+"lexer/lexer_ported.rs"],
 [("single pass over input, tokens and extras",M+"cst.rs parse; "+M+"lexer.rs lex")],
 ["instruction counts under valgrind","allocated and peak bytes of a counting allocator"])
p("C23","Every keyword is usable exactly where its PostgreSQL category allows",
 "For every word of PostgreSQL's keyword list, the word may be used as a column name, as a function or type name, as an explicit AS label and as a bare column label exactly when its category (unreserved, column-name, type/function-name, reserved) and bare-label flag in that list say so. Every word not in the list is an ordinary identifier everywhere.",
 ["inputs"],"All keywords, all category positions, all non-keyword words (near misses, prefixes, extensions of keywords).",
 "Snapshots use a few dozen of the roughly 490 keywords, nearly always as keywords.",
 [M+"parser.rs",M+"lexer/generated.rs","crates/lexer-generator/resources/kwlist.h","crates/parser-generator/resources/gram.y"],
 [("keyword map",M+"lexer/generated.rs get_keyword_map"),("keyword category productions","crates/parser-generator/resources/gram.y")],
 ["Ok/Err and token kinds for generated probes"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
