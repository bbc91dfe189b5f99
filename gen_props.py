#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements are readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","Every input gets a verdict: no hang, panic or crash",
 "For every source text, analysing it as a file, as a REPL line or as a single expression terminates promptly and yields either a result or a non-empty list of errors. It never panics, aborts or loops, whatever indentation, unfinished construct, line ending or character the text contains.",
 ["inputs"],"all texts; bounded: all strings over several character alphabets, all sequences of source lexemes and layout lines up to a depth, every scanner-automaton transition with all short suffixes, size families up to 70 000",
 "The tests run about 120 hand-picked texts, almost all of them well formed; a hang or panic needs a particular combination of indentation levels, end-of-input position or characters.",
 ["src/scanner.rs","src/parser.rs","src/resolver.rs"],
 [("main scan loop always consumes","src/scanner.rs scan_tokens/advance"),("outdent loop pops or stops","src/scanner.rs bol_indentation_tokens"),("error recovery always advances","src/parser.rs synchronize, primary"),("resolver limits are errors, not panics","src/resolver.rs ensure_scope_index_limit")],
 [("eof","set when the input is exhausted","src/scanner.rs Scanner"),("current","token cursor","src/parser.rs Parser")],
 ["parser::parse","parser::parse_repl_line","parser::parse_expression","resolver::resolve"])

p("C02","Lexical analysis loses nothing and classifies by longest match",
 "Every character of an accepted source text belongs, in order, to exactly one token or to a space, comment, newline or line continuation, and each token's text is the longest match at its position. A token's kind is determined by its text alone: the eighteen reserved words, the one- and two-character operators, identifiers (a letter or underscore followed by letters, digits or underscores, judged by the base character of each grapheme), numbers and strings; an opening parenthesis is additionally marked by whether it touches the preceding token. A text with a character that starts no token is rejected with one error per such character.",
 ["inputs"],"all texts; bounded: all strings over lexical alphabets up to a length, all edit-distance-1 neighbours of reserved words, every Unicode scalar value in several contexts",
 "The scanner tests list one text per token kind (or, super and several operators are not even listed); which neighbouring characters are joined into one token is a question about all adjacent pairs and triples of characters.",
 ["src/scanner.rs","src/token.rs"],
 [("character dispatch","src/scanner.rs scan_token"),("keyword table","src/scanner.rs KEYWORDS"),("identifier and number loops","src/scanner.rs scan_identifier/scan_number"),("touching-paren flag","src/scanner.rs is_abutting")],
 (),["Scanner::scan_tokens"])

p("C03","Names and literal values reach the tree exactly as written",
 "Every number literal in the resulting tree has the double-precision value nearest to its decimal text, every string literal consists of exactly the characters between its quotes (line breaks and non-ASCII included, nothing escaped or trimmed), and every identifier, property name, parameter and map key has exactly the spelling of the source. true, false and nil become the corresponding constants.",
 ["inputs"],"all literals in all expression positions; bounded: all digit strings with optional fraction up to a length plus long families, all short strings over an alphabet with multi-byte clusters, quotes, newlines and backslashes",
 "Tests check one integer, two decimals and one ASCII string; off-by-one slicing shows only with multi-byte characters, empty strings or particular positions.",
 ["src/scanner.rs","src/parser.rs"],
 [("slicing between quotes","src/scanner.rs scan_string"),("decimal conversion","src/scanner.rs scan_number"),("literal hand-over","src/parser.rs primary, literal_map")],
 (),["parser::parse","Scanner::scan_tokens"])

p("C04","Block structure is exactly what the indentation says",
 "Comparing the leading spaces of each new logical line with the enclosing blocks, a deeper line opens exactly one block, an equal line none, and a shallower line closes exactly the blocks deeper than it; if it then matches no enclosing level the text is rejected. At the end of the text all open blocks are closed, so block openings and closings are always balanced and properly nested.",
 ["inputs","histories"],"all sequences of line indentations; bounded: all sequences of indentation widths up to a length and width, all reachable layout states of the scanner automaton with every input symbol from each",
 "There is a single indentation test with one level; wrong nesting needs several levels, multi-level closing, or closing interrupted by continuation or end of input.",
 ["src/scanner.rs"],
 [("indentation stack comparison","src/scanner.rs bol_indentation_tokens"),("closing at end of input","src/scanner.rs close_all_blocks")],
 [("indentation","stack of open block widths","src/scanner.rs Scanner"),("bol_spaces","leading spaces of this line","src/scanner.rs Scanner")],
 ["Scanner::scan_tokens","parser::parse"])

p("C05","A newline ends a statement unless the line is continued",
 "A line break ends the current logical line exactly when that line has code and is not continued: a line is continued when its last token is one of ( { [ : , . - + * / < <= > >= or when it ends in a backslash, optionally followed by spaces. A continuation line indented at least as far as the current block neither opens nor closes a block, blank lines in between do not matter, and the line after it is again compared with the block that was current. A backslash anywhere else is rejected.",
 ["inputs","histories"],"all sequences of line endings and line starts; bounded: every reachable layout state with every symbol and short suffixes, all short strings over a layout alphabet, all last-token kinds crossed with all next-line shapes",
 "Four tests cover backslash and one operator at block level zero; continuation state is carried across lines, so errors need particular successions of continued, blank and indented lines.",
 ["src/scanner.rs"],
 [("terminator insertion","src/scanner.rs scan_token newline arm"),("continuation flags","src/scanner.rs reset_line, following_line_continuation, is_line_continuation")],
 [("is_line_continuation","current line continues the previous one","src/scanner.rs Scanner"),("following_line_continuation","last token asks for continuation","src/scanner.rs Scanner")],
 ["Scanner::scan_tokens"])

p("C06","Comments, blank lines, spacing and line endings carry no meaning",
 "Outside strings, adding or removing any of the following changes nothing but source positions: a comment after a space at the end of a line (not after a backslash), a comment-only line of any indentation, a blank line or a line of spaces, spaces at the end of a line, extra spaces between two tokens (except directly before an opening parenthesis), and CR LF instead of LF line endings. This holds for accepted texts (same tree) and for rejected ones (still rejected, for the same reason), at block level, after continued lines and inside nested blocks alike.",
 ["inputs"],"all programs and all such edits; bounded: all short programs from lexeme and line alphabets, each with every single edit (thorough: every pair of edits)",
 "Tests contain three comment placements and no trailing spaces or CR LF; the claim compares two runs for every program and every insertion point.",
 ["src/scanner.rs"],
 [("comment skipping","src/scanner.rs scan_token '/' arm"),("blank lines and carriage returns","src/scanner.rs scan_token newline arm, reset_line")],
 (),["parser::parse"])

p("C07","Positions in tokens, trees and errors point at the source",
 "Every token, every tree node that carries a position and every reported error names the 1-based line and the 1-based column, counted in graphemes, where its defining token begins; this stays true after multi-line strings, comments, continued lines, CR LF line endings and non-ASCII text. The defining token of an operation is its operator, dot, bracket, equals sign or touching parenthesis (the first argument for a call without parentheses), and of a declaration, variable, function or jump its name or keyword. Columns saturate at 65535; lines do not wrap.",
 ["inputs"],"all texts; bounded: all short strings over alphabets with strings, newlines, clusters and operators, all lexeme sequences to a depth, long-line and many-line families",
 "Tests assert positions only in one-line ASCII texts and one two-line string; positions depend on everything that precedes a token.",
 ["src/scanner.rs","src/parser.rs","src/source_loc.rs","src/token.rs"],
 [("line and column counting","src/scanner.rs advance, reset_line, scan_string"),("position hand-over","src/parser.rs matches, SourceLoc::from")],
 [("line/column/start_column","current position","src/scanner.rs Scanner")],
 ["Token.line/column","SourceLoc in ast nodes","ParseErrorCause.source_loc"])

p("C08","Operator expressions parse by precedence and associativity",
 "From loosest to tightest the operators are: assignment (right-associative), or, and, == and !=, the four comparisons, + and -, * and /, prefix ! and -, and postfix property access, indexing and call; all binary levels associate to the left and parentheses group. Each operator in the text appears exactly once in the tree, as the operation its symbol denotes, with its operands in source order, and only a variable, property or indexed element (not this, not a call or a parenthesised expression) may be assigned to.",
 ["inputs","programs"],"all expressions; bounded: all operator chains up to a length over all operators with optional prefixes, all expression trees up to a size printed with minimal parentheses, all expression lexeme sequences to a depth",
 "Tests check two operators at a time in three combinations; precedence is a statement about all pairs and nestings of operators.",
 ["src/parser.rs","src/ast.rs"],
 [("precedence ladder","src/parser.rs assignment/or/and/equality/comparison/addition/multiplication/unary/call"),("assignment targets","src/parser.rs assignment")],
 (),["parser::parse","parser::parse_expression"])

p("C09","Calls bind their arguments the same way in both notations",
 "A parenthesis touching the callee starts an argument list that ends at its closing parenthesis and may be empty; a literal, name, super, fun, brace or detached parenthesis directly after an operand starts an argument list without parentheses, which extends over comma-separated full expressions as far as possible. In both notations the arguments appear in the call in source order, none lost or duplicated, and calls, indexing and property access chain from left to right. Up to 255 arguments are accepted and more are rejected.",
 ["inputs","programs"],"all call expressions; bounded: all lexeme sequences over a call alphabet to a depth, argument counts 0..300 in both notations",
 "Six tests use at most two arguments; the interplay of touching and detached parentheses, chaining, nesting and commas needs combinations.",
 ["src/parser.rs","src/scanner.rs"],
 [("call loop","src/parser.rs call, finish_call, finish_call_without_parens"),("touching-paren token","src/scanner.rs LeftParenAbutting")],
 (),["parser::parse"])

p("C10","Array and map literals keep their entries, order and keys",
 "An array literal yields its elements in source order, with an optional trailing comma; a map literal (braced, bare on one line, or as an indented block after a variable's equals sign) yields its entries in source order, each key with its own value. Entries are separated by commas or, between entries at the same level, by line breaks, with an optional trailing comma. A repeated key is rejected, whatever mixture of name and quoted spelling is used, and keys of different maps never interfere.",
 ["inputs","programs"],"all collection literals; bounded: all lexeme sequences over a collection alphabet with line breaks to a depth, all entry/separator layouts up to a size, entry counts 0..300",
 "Tests use maps of two distinct keys and arrays of two numbers; order, duplicates, separators and nesting interact.",
 ["src/parser.rs","src/ast.rs"],
 [("map entries","src/parser.rs literal_map"),("array elements","src/parser.rs primary LeftBracket arm"),("insertion-ordered map","src/ast.rs Map")],
 (),["parser::parse"])

p("C11","Statements nest and desugar exactly as written",
 "Every statement of an accepted program appears exactly once in the tree, in source order, inside exactly the block its indentation or braces put it in, and with exactly its own condition, body, initializer and value. An else belongs to the if at its own level and may hold an indented block, a braced block or a single statement. A for loop becomes a while loop over its condition (true if omitted), with its increment run after the body and its initializer, if any, before the loop in a block of its own.",
 ["inputs","programs"],"all programs; bounded: all sequences of line forms at all indentation levels up to a number of lines, all lexeme sequences to a depth, every parser configuration with every next lexeme",
 "Tests contain single if/while/for statements with at most two levels and never use else; which body a line belongs to is a statement about all nestings.",
 ["src/parser.rs"],
 [("block parsing","src/parser.rs finish_block, consume_begin_block, consume_end_block"),("if/else","src/parser.rs finish_if_statement"),("for desugaring","src/parser.rs finish_for_statement")],
 (),["parser::parse"])

p("C12","Functions and classes keep their members and kinds",
 "A function keeps its name, its parameters in order (at most 255, more are rejected) and its body; a class keeps its name, its optional superclass and all its methods in order, each with its own parameters and body. A method is a class method if introduced by class, otherwise the initializer if it is named init, otherwise an instance method; functions outside classes, named or anonymous, are plain.",
 ["inputs","programs"],"all function and class definitions; bounded: all sequences of class/method/function line forms to a depth, parameter counts 0..300, method counts",
 "No test parses a class, a method or a parameter list.",
 ["src/parser.rs","src/ast.rs"],
 [("class bodies","src/parser.rs finish_class_declaration"),("parameter lists","src/parser.rs function_definition")],
 (),["parser::parse"])

p("C13","Only programs of the language are accepted; the first error is the first fault",
 "A text that is not a program of the language is never accepted: no token is silently skipped, and no missing token is silently assumed. The first error reported for a text with a syntax error names the token at which parsing could not go on (at the end of the text, the end itself or the last token), by its position and its spelling; an invalid assignment target, a repeated map key or a jump outside a loop is reported at its equals sign, key or keyword.",
 ["inputs","programs"],"all token sequences; bounded: every viable prefix to a depth followed by every possible next lexeme, every parser configuration with every next lexeme, every truncation and every single-token deletion, duplication or replacement of a program corpus",
 "Tests contain eight rejected texts; soundness of acceptance is a statement about all texts that are not programs.",
 ["src/parser.rs"],
 [("token expectations","src/parser.rs consume, consume_any_of, consume_begin_block, consume_end_block"),("error tokens","src/parser.rs error_from_peek, error_from_last")],
 (),["parser::parse","ParseError.causes[0]"])

p("C14","break and continue are accepted exactly inside their own loop",
 "A break or continue statement is accepted exactly when it stands inside the body of a while or for loop of the same function body (or of the top level), at any depth of blocks and conditionals. A loop around a function or method definition does not count for jumps in that function's body, a loop that has ended does not count for what follows, and after a rejected loop later jumps are judged as if that loop had never been there.",
 ["programs"],"all nestings of loops, conditionals, functions, classes and jumps; bounded: all sequences of such line forms at all indentation levels up to a number of lines, including malformed loops followed by jumps",
 "Tests only nest loops and ifs on one line and check jumps after one complete loop.",
 ["src/parser.rs"],
 [("loop depth counter","src/parser.rs in_loops, loop_body_statement, function_definition")],
 [("in_loops","number of enclosing loops of the current function","src/parser.rs Parser")],
 ["parser::parse"])

p("C15","Every name use is bound to the declaration lexical scoping selects",
 "For every use of a variable, function, class, this or super in an accepted program, the recorded distance and slot identify the innermost enclosing scope that declares the name before the use, and that declaration's slot in it; blocks, functions, a class's methods and a subclass each open one scope, and a function's parameters share the scope of its body. A name no enclosing scope declares yet denotes the global of that name, whether it is declared later or never. Executing with nested arrays of slots therefore reads and writes exactly the variables that execution by name would.",
 ["programs"],"all programs; bounded: all sequences of declare/use/assign/open/close operations over few names up to a depth, every reachable state of the scope model with every operation, nesting families beyond 255 levels",
 "The resolver has no tests at all; distances depend on the whole nesting and declaration history.",
 ["src/resolver.rs","src/environment.rs"],
 [("scope stack walk","src/resolver.rs resolve_local_variable"),("scope open/close","src/resolver.rs begin_scope/end_scope, resolve_class, resolve_function"),("forward globals","src/resolver.rs forward_reserve_global_var")],
 [("scopes","stack of name -> slot maps","src/resolver.rs Resolver")],
 ["resolver::resolve"])

p("C16","Distinct variables of one scope never share a slot",
 "Within one scope every distinct name has its own slot, numbered from zero in the order in which evaluation first meets the names (a variable before its initializer, an assigned value before its target, a loop body before its increment), and keeps it: redeclaring a global, or declaring one after it was first mentioned, refers to the same slot from everywhere. A scope holds at most 255 names; a program that needs more in one scope is rejected with an error at the name that does not fit, and is never accepted with two names on one slot.",
 ["programs","histories"],"all declaration histories; bounded: all operation sequences over few names to a depth; declaration counts 0..300 and beyond 65535 for parameters, locals, functions, globals and forward references, with redeclarations at every fill level near the limit",
 "No resolver tests; sharing needs hundreds of names in one scope or a particular order of mention and declaration.",
 ["src/resolver.rs","src/environment.rs"],
 [("slot assignment","src/resolver.rs declare, define, forward_reserve_global_var"),("limit","src/resolver.rs ensure_scope_index_limit")],
 [("slot_index","slot of a name in its scope","src/resolver.rs VarResolveState")],
 ["resolver::resolve"])

p("C17","Static rules are enforced exactly: nothing more, nothing less",
 "A parsed program is rejected exactly if it declares a name twice in one scope other than the global one, reads a variable in its own initializer in the same scope (unless it is an already defined global), returns outside any function, returns a value other than nil from an initializer, uses this or super outside a class, uses super in a class without superclass, lets a class inherit from itself, or exceeds the name limit of a scope. The innermost class and the innermost function decide, and class methods, functions nested in initializers and classes nested in methods are judged by their own kind; every top-level statement that breaks a rule is reported, with the rule it breaks first.",
 ["programs"],"all programs; bounded: all sequences of declaration, use, return, this and super line forms in all nestings of functions, initializers, methods, class methods, classes and subclasses up to a number of lines",
 "The resolver has no tests; each rule has exceptions that depend on the enclosing constructs.",
 ["src/resolver.rs"],
 [("context tracking","src/resolver.rs function_type, class_type saved and restored"),("rules","src/resolver.rs resolve_statement, resolve_expression, resolve_class, declare, define")],
 [("function_type/class_type","innermost function and class","src/resolver.rs Resolver")],
 ["resolver::resolve"])

p("C18","Every independent error is reported, in order",
 "A text with lexical errors reports every one of them, in source order. After a syntax error, parsing resumes just past the next class, fun, var, for, if, while, print or return (after skipping at least one token) and goes on reporting, so a later faulty statement is not masked. Static-rule checking examines every top-level statement and reports the first violation of each violating one, in source order, with nothing reported twice and nothing reported for the others.",
 ["inputs","programs"],"all texts with several errors; bounded: all combinations of up to four faulty and correct statements or lexemes, and the error lists of all enumerated texts",
 "Every rejected text in the tests has exactly one error.",
 ["src/scanner.rs","src/parser.rs","src/resolver.rs","src/error.rs"],
 [("error accumulation","src/scanner.rs error; src/parser.rs parse; src/resolver.rs resolve"),("resynchronisation","src/parser.rs synchronize"),("scope restoration on errors","src/resolver.rs resolve_function, resolve_class, Block arm")],
 (),["ParseError.causes"])

p("C19","A REPL session behaves like one growing program",
 "In a session, each line is analysed with exactly the globals (and their slots) established by the accepted lines before it, so when every accepted line consists of complete statements, these get the same bindings as the same statements analysed as one program. A rejected line changes nothing: every later line gets the result it would have got had the rejected line never been entered.",
 ["histories","inputs"],"all sequences of lines; bounded: all histories of lines from a menu up to a depth, and every reachable session state with every line",
 "No test runs the resolver, let alone twice in one session.",
 ["src/resolver.rs","src/main.rs"],
 [("session state","src/resolver.rs Resolver::resolve, scopes[0]"),("restoration after errors","src/resolver.rs resolve, resolve_class, resolve_function")],
 [("scopes[0]","globals and slots of the session","src/resolver.rs Resolver")],
 ["Resolver::resolve","CLI REPL"])

p("C20","File, REPL-line and single-expression analysis agree",
 "Every text accepted as a file is accepted as a REPL line with the same tree. A REPL line is otherwise accepted only if it ends in an expression statement that lacks its line end (a line break after it is missing, continued, or hidden behind the end of an indented block), with the tree it would have were its last token followed by a line end. A text is accepted as a single expression exactly if it is one expression and nothing else, with the tree that expression has as a statement (unless it starts with a brace, which opens a block there).",
 ["inputs","programs"],"all texts; bounded: all lexeme and line sequences to a depth analysed in all three modes, with and without final line break",
 "Only file mode is tested on statements and only a dozen literals in expression mode; REPL mode is never tested.",
 ["src/parser.rs"],
 [("mode flag","src/parser.rs allow_trailing_expression, expression_statement"),("entry points","src/parser.rs parse, parse_repl_line, parse_expression")],
 (),["parser::parse","parser::parse_repl_line","parser::parse_expression"])

p("C21","The command line reports exactly what the analysis found",
 "For a file, the program prints the resolved tree on standard output and exits with status 0, or prints nothing there, prints every error in order on standard error as its line, column, offending token (if any) and message, and exits with status 65. Without a file it reads lines until the end of input, prompting and answering each in one continuing session, tree or errors, and then exits; neither an error line nor the way input arrives in pieces ends or alters the session. The arguments alone select what is done: one file name, none, or, if it stands before every other option, --version (prints the version) or --help or -h (prints the usage), which analyse nothing and succeed; after -- every argument is a file name. Any other argument with a dash, or a second file name, makes the program fail with a message that names it, with nothing on standard output and nothing analysed.",
 ["inputs","histories","fault_sequences"],"all files and all input streams; bounded: a program corpus and all its truncations run through the real binary, all REPL histories of menu lines up to a depth, every split point of a session's input, end of input at every byte, all argument lists up to a length, settings of the environment",
 "main.rs has no tests and is never run by the suite.",
 ["src/main.rs","src/error.rs"],
 [("file mode","src/main.rs run_file, print_result, print_parse_error"),("REPL loop","src/main.rs run_repl")],
 (),["process exit status, stdout, stderr"])

p("C22","The web binding returns the same tree and the same errors",
 "The function exported to JavaScript returns, for every source text, the same resolved program as the native library: every statement and expression as an object naming its kind with all its parts, in order, under the same names, with numbers, strings, booleans, positions, slots and distances unchanged and map literals as insertion-ordered maps. If the library reports errors, the function throws an error whose message lists all of them with line, column, token and text.",
 ["inputs","programs"],"all texts; bounded: all lexeme and line sequences to a depth plus a corpus with every node kind, run through the real WebAssembly module",
 "The test suite never compiles or runs the WebAssembly part.",
 ["src/wasm.rs","src/ast.rs","src/environment.rs","src/source_loc.rs","src/error.rs"],
 [("serialisation of the tree","src/ast.rs Serialize derives and Map impl"),("entry point","src/wasm.rs wasm_parse_string"),("error text","src/error.rs Display")],
 (),["WebAssembly export parseString"])

p("C23","Analysis is a pure function of the text",
 "Analysing a text gives the same result whatever was analysed before in the same process, however often it is repeated, on whichever thread, and whatever another thread is analysing at the same time: no result depends on earlier texts, earlier errors, hash-table order or on how threads interleave.",
 ["histories","schedules","inputs"],"all sequences of analyses and all schedules of simultaneous ones; bounded: all ordered pairs and triples from a set of probe texts that covers every token, node and error kind, and all interleavings, at the granularity of memory allocations and with a bounded number of preemptions, of two simultaneous analyses (also of the first two of a process), each compared with the text's result in a fresh process",
 "Tests analyse each text once, in unspecified order and under whatever schedule happens, and compare one result.",
 ["src/scanner.rs","src/parser.rs","src/resolver.rs"],
 [("no state outside Scanner, Parser, Resolver","src/scanner.rs KEYWORDS is the only global"),("order-independent use of hash maps","src/resolver.rs scopes")],
 (),["parser::parse","resolver::resolve"])

p("C24","The web page shows the whole result for the current text",
 "Once the page and the module are loaded, in whatever order these and the user's edits happen, the page shows the result for the text that is now in the text area, without a further edit: if it is a program, every object, list, map, string, number, truth value and absence of the value that the web binding returns, each under its name and in order; otherwise the message of the error. Edits before that do no harm.",
 ["histories","inputs","programs"],"all orders of the events (page ready, module loaded, edits) and all texts; bounded: all event sequences with a few edits, and enumerated programs, strings, map keys and sizes, on the page's own script",
 "The test suite never runs the page.",
 ["index.html"],
 [("rendering","index.html pretty, escapeMapKey, display, displayText"),("events","index.html onChange, init().then, DOMContentLoaded and input listeners")],
 [("isLoaded/isReady","the module has been loaded, the document is ready","index.html")],
 ["the text of the element result"])

p("C25","Faults of input and output are reported, never taken for results",
 "A program file that is missing, cannot be read or is not UTF-8 makes the program end with a failing status, nothing on standard output and a message on standard error that names the file. When the input of a session can no longer be read, because reading fails or a line is not UTF-8, the program has answered every complete line before that as it always would; it then reports the failure and ends, answering nothing after it. If standard output cannot be written, the program has written a prefix of the right output and ends with a failing status. In how many pieces a file or a session's input arrives makes no difference, even where a piece ends inside a character.",
 ["fault_sequences","inputs","histories"],"all files, inputs and faults; bounded: all byte sequences to a length over every class of byte that UTF-8 distinguishes, every kind of ill-formed sequence at every position of programs and sessions, a read failure at every byte of a session's input, a write failure at every byte of the output, every division of an input in two pieces, and each kind of path that is no readable file",
 "main.rs has no tests, and no test meets a fault.",
 ["src/main.rs"],
 [("reading a file","src/main.rs run_file"),("reading lines","src/main.rs run_repl read_line and its Err branch"),("writing","src/main.rs print_result, run_repl flush")],
 (),["process exit status, stdout, stderr"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
