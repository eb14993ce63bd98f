#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="lib/src/"
p("C01","Every source text is split into exactly the tokens the language defines",
 "For every text, tokenising ends and yields the longest-match left-to-right token sequence of the language: operators and delimiters (two-character operators preferred over one-character ones), names and keywords, digit runs (integer, or float as soon as a dot occurs in the run), double-quoted strings and back-quoted templates taken verbatim up to the closing quote or the end of the text. White space only separates tokens, every other character becomes one illegal token carrying that character, and no character outside white space and quotes is dropped, duplicated or reordered. The sequence ends with exactly one end-of-file token.",
 ["inputs"],"all Unicode texts, including unterminated strings, lone operators and characters outside the language",
 "One test tokenises one program and compares it with a listed token sequence; unterminated literals, adjacent operators, non-ASCII text and illegal characters are never sampled.",
 [L+"lexer.rs",L+"token.rs"],[("segment: one pass over the characters with one character of look-ahead",L+"lexer.rs"),("Token/Kind",L+"token.rs")],observe=["token sequence"],hook="re-export of the tokeniser")
p("C02","Parsing any text terminates with a program or an error, never a crash or hang",
 "For every text whose nesting fits the call stack, parsing terminates and returns either a program or an error message. It never reads outside the token sequence, never overflows a counter, and every loop and recursion consumes input.",
 ["inputs"],"all texts, valid or not, truncated anywhere, of any length (nesting depth bounded by the stack)",
 "Tests parse some fifty well-formed snippets; termination and index safety have to hold for every malformed or truncated text.",
 [L+"parser.rs",L+"lexer.rs"],[("next_token never moves past the last token; the last token is end-of-file",L+"parser.rs"),("parse_expr/parse_expr_list/parse_block_expr loops",L+"parser.rs")],
 state=[("Parser.index","position of the current token, always inside the token vector",L+"parser.rs")],observe=["return of parse"],hook=None)
p("C03","Expressions group by the documented operator precedence and associativity",
 "Every expression is parsed into the tree given by the precedence order, loosest first: || ; && ; | ; ^ ; & ; == != ; < > <= >= ; << >> ; + - ; * / % ; prefix ! and - ; call ; index and field access. Binary operators of equal precedence group to the left, prefix operators bind tighter than every binary operator and looser than calls, indexing and field access, and parentheses override grouping and are kept. The operands and operators of the tree, read left to right, are exactly the tokens of the text.",
 ["programs"],"all expressions over all operators, of any length and nesting, with any mixture of prefix and postfix forms",
 "Tests compare the printed form of about thirty expressions; 18 binary operators give 324 neighbour pairs and unbounded chains.",
 [L+"parser.rs",L+"token.rs"],[("precedence table",L+"token.rs"),("precedence climbing loop parse_expr/parse_binary_expr/parse_unary_expr",L+"parser.rs")],observe=["parsed tree"],hook="re-export of the syntax tree")
p("C04","Parsed programs keep every statement and declaration in order, later names win",
 "For every program text that parses, the result has exactly the top-level expressions of the text in textual order, one request per declared request name with its message text verbatim and its assertions in order, and one test per declared test name with its statements in order. When a name is declared twice the later declaration is the one kept. A malformed literal, declaration, list, block, map or call is reported as an error and never silently skipped.",
 ["programs"],"all sequences of expressions, requests and tests, with optional semicolons and trailing commas, including repeated names",
 "Tests parse one declaration at a time; ordering, name clashes and error reporting over arbitrary sequences are not sampled.",
 [L+"parser.rs"],[("Parser::parse and parse_request_literal/parse_test_literal/parse_block_expr/parse_expr_list/parse_map_literal",L+"parser.rs")],observe=["parsed program"],hook="re-export of the syntax tree")
p("C05","Integer and float arithmetic is exact or an error, never a crash or wrong value",
 "For every pair of values, + - * / % on integers yield the mathematical result (division truncating toward zero) when it fits 64 bits and an error otherwise, also for a zero divisor; & | ^ and prefix ! act bitwise, << and >> shift by 0 to 63 (>> keeping the sign) and report an error for any other distance, and prefix - negates or reports an error. If one operand is a float the other is converted to float and the IEEE operation of the operator is applied; + joins two strings. Every other combination of operand types is an error, and no operand makes evaluation crash.",
 ["inputs"],"all pairs of runtime values and all operators, including the extreme integers, zero and non-finite floats",
 "Tests try one or two small operand pairs per operator; extreme values, zero divisors, shift distances and type mismatches form an unbounded input space.",
 [L+"value.rs",L+"evaluator.rs"],[("operator implementations of Value",L+"value.rs"),("eval_binary_expr/eval_unary_expr dispatch",L+"evaluator.rs")],observe=["value or error of an expression"],hook="re-export of runtime values")
p("C06","Comparisons agree with the order of numbers and strings and never error",
 "<, >, <= and >= compare integers by magnitude, floats by IEEE order, an integer with a float after converting it to float, and strings by character order; for any other pair of types all four are false. == is true exactly when both values have the same type and the same content (arrays element by element, maps key by key), and != is always the opposite of ==.",
 ["inputs"],"all pairs of runtime values of equal or different types, nested collections included",
 "Tests check a few literal pairs per operator; mixed types, nested collections and all pairs need the general statement.",
 [L+"value.rs",L+"evaluator.rs"],[("PartialOrd/PartialEq of Value",L+"value.rs"),("eval_binary_expr comparison arms",L+"evaluator.rs")],observe=["value of a comparison"],hook="re-export of runtime values")
p("C07","Evaluation follows program order, short-circuits and stops at the first error",
 "For every program, statements and operands are evaluated left to right exactly once each: && and || evaluate the right operand only when the left one does not decide and return the deciding operand, `if` evaluates its condition and then exactly one branch, and only false and null count as false. A block yields the value of its last statement, or null when empty. The first error ends the evaluation and is returned as the result, and no later statement or operand is evaluated.",
 ["programs"],"all syntax trees and all starting environments",
 "Tests evaluate a few dozen programs; order, single evaluation and error propagation quantify over all programs.",
 [L+"evaluator.rs"],[("eval_expr and the per-construct functions, eval_block, eval_list",L+"evaluator.rs")],observe=["result value or error","environment after evaluation"],hook="re-export of the syntax tree")
p("C08","Only `let` changes a variable, and only the variable it names",
 "Evaluating any expression leaves every variable and every declared request unchanged, except that `let x = e` makes x denote the value of e from then on, and has that value itself. Reading a variable gives the value most recently bound to it, and reading one that was never bound is an error. A failing evaluation keeps the bindings made before the failure and makes no others.",
 ["programs","histories"],"all programs and environments, including programs that fail part way and repeated rebinding",
 "Tests bind and read one or two variables; the frame condition speaks about every other variable under every program.",
 [L+"evaluator.rs",L+"context.rs"],[("eval_let_expr/eval_ident_expr",L+"evaluator.rs"),("Context::get/set",L+"context.rs")],
 state=[("Context","variables, declared requests and records of one evaluation",L+"context.rs")],observe=["environment after evaluation"],hook=None)
p("C09","Array, map, index and field expressions select exactly the stored element",
 "An array literal holds the values of its items in order, and a map literal holds the values of its entries under the text of their keys, the last entry winning for repeated keys. Indexing an array with an integer gives the element at that position and null for any position outside it, negative ones included; indexing a map with any value and accessing a field give the entry stored under that text, or null when there is none. Indexing or field access on any other type, or an array with a non-integer, is an error.",
 ["inputs","programs"],"all collection literals, all index values including negative and huge ones, all key types",
 "Tests index short literals at a few positions; the claim is about every collection and index.",
 [L+"evaluator.rs"],[("eval_array_literal/eval_map_literal/eval_index_expr/eval_field_expr",L+"evaluator.rs")],observe=["value or error of an expression"],hook=None)
p("C10","Built-in length, append and format compute their documented results",
 "length returns the number of bytes of a string, items of an array or entries of a map; append returns the given array followed by the remaining arguments in order; format returns its template with the n-th {name} placeholder replaced by the text of the n-th further argument and everything else unchanged. Wrong argument counts or types are errors, and calling an unknown function is an error. None of them changes a variable or crashes.",
 ["inputs"],"all argument lists: any number and type of values, any template text with any number of placeholders, placeholder-like text inside arguments included",
 "Tests pass a handful of argument lists; argument counts, placeholder positions and replacement text that itself looks like a placeholder are unbounded.",
 [L+"native.rs",L+"evaluator.rs"],[("native::length/append/format",L+"native.rs"),("eval_call_expr dispatch by name",L+"evaluator.rs")],observe=["value or error of a call"],hook=None)
p("C11","Request templates substitute each placeholder with its variable and nothing else",
 "When a request is called, every {name} placeholder in its message (blanks inside the braces allowed) is replaced by the text of that variable at the time of the call, or by null when it is not bound, and all other text of the message is sent on unchanged. Text that was substituted in is never itself expanded again.",
 ["inputs","programs"],"all message texts with any number, position and spelling of placeholders, all variable values",
 "Network tests use one or two placeholders with short values; replacement of several ranges with values of any length and content is not sampled.",
 [L+"evaluator.rs"],[("placeholder replacement in eval_call_expr",L+"evaluator.rs")],observe=["request received by the server","recorded request"],hook=None)
p("C12","Request URLs are split into scheme, host, port and path without losing text",
 "For every URL `scheme://host[:port][/path]`, the request connects to the given host and to the given port, or to 80 for http and 443 for https when no valid port is given, and asks for exactly the text from the first slash after the host on, or / when there is none. A target without a scheme separator means localhost. The URL stored in the record names the same scheme, host, port and path.",
 ["inputs"],"all URL texts: with and without port and path, with further separators, colons, queries and fragments inside the path",
 "Tests parse eight fixed URLs; none has a separator inside the path or query.",
 [L+"http/url.rs"],[("Url::from and its Display",L+"http/url.rs")],observe=["connected address","request line","recorded url"],hook=None)
p("C13","A request message is read as request line, headers and body with nothing lost",
 "For every message text, the first line gives method, URL and version (unknown or missing words fall back to GET, http://localhost/ and HTTP/1.1), each further line up to the first blank one that has a colon gives one header with name and value trimmed, in order and duplicates kept, and the lines after the blank one give the body with its line breaks. With content type application/x-www-form-urlencoded the body sent is the encoding of its name: value lines in order. Message text never crashes the parser.",
 ["inputs"],"all message texts: any lines, blank lines, header shapes, bodies and content types",
 "One unit test reads one two-line message; all others need a network.",
 [L+"http/request.rs",L+"http/mod.rs",L+"http/header.rs"],[("Request::from",L+"http/request.rs"),("method/version/scheme tables",L+"http/mod.rs"),("Headers::insert/iter",L+"http/header.rs")],observe=["recorded request","bytes received by the server"],hook="re-export of the request type")
p("C14","The bytes sent are exactly request line, headers in order, blank line and body",
 "For every request, the bytes handed to the connection are the line `METHOD path VERSION`, one `name: value` line per header in order, an empty line, each ended by CR LF, and then exactly the body bytes, and nothing else. A failure to write or flush is reported as an error and never as success.",
 ["inputs","fault_sequences"],"all requests (methods, paths, header lists, bodies) and all write failures",
 "No offline test looks at the bytes that are sent.",
 [L+"http/request.rs",L+"http/content.rs",L+"http/client.rs",L+"http/stream.rs"],[("Request::write",L+"http/request.rs"),("Content::write",L+"http/content.rs"),("Client::send",L+"http/client.rs"),("Write for Stream",L+"http/stream.rs")],observe=["bytes received by the server"],hook=None)
p("C15","A response is read as status line, headers and body exactly as sent",
 "For every byte stream a server sends before closing, the response has the protocol version, the status number (0 when it is not a number from 0 to 65535) and the reason words of the first line, one header per following line with a colon up to the first blank line, in order, split at the first colon and trimmed, and the remaining text as its body, unchanged. A stream that fails or is not text is reported as an error, never as a successful response, and no stream crashes or hangs the client.",
 ["inputs","fault_sequences"],"all byte streams, split over reads in any way, including empty, truncated and malformed ones",
 "One unit test reads one well-formed response from memory.",
 [L+"http/response.rs",L+"http/header.rs",L+"http/client.rs",L+"http/stream.rs"],[("Response::from",L+"http/response.rs"),("Client::send",L+"http/client.rs"),("Read for Stream",L+"http/stream.rs")],observe=["value returned by a request call","recorded response"],hook="re-export of the response type")
p("C16","The value of a response exposes status, headers, body and JSON faithfully",
 "The value a request call yields has the version, reason and body texts and the status number of the response, and a headers map from each header name to the array of all its values in order. When the body reads as a literal (numbers incl. negative ones, booleans, null, strings without escapes, arrays and objects, nested), its json entry is that value; without such a reading there is no wrong value: non-literal parts become null and unparsable bodies have no json entry.",
 ["inputs"],"all responses: any header multiset and order, any body text",
 "One unit test reads one flat JSON object; nesting, negative numbers and repeated headers are not sampled.",
 [L+"http/response.rs",L+"syntax.rs"],[("Response::to_map",L+"http/response.rs"),("Expr::eval",L+"syntax.rs")],observe=["value returned by a request call"],hook="re-export of the response type")
p("C17","Each request call leaves one record whose assertion results match the response",
 "Every call of a declared request, and nothing else, appends exactly one record, in call order, holding the request name, request, response, error text and one result for each comparison assertion in order; a declared request takes precedence over a built-in of the same name. An assertion result is the comparison of its two sides evaluated against the response alone (a side that fails counts as null), and failed assertions or connections do not stop the program. A record prints one line per assertion result (the assertion's expression as text, both sides, the result) and PASS exactly when all its assertion results are true.",
 ["programs","histories"],"all programs, declared requests, assertion lists and responses, connection failures included",
 "The tests that call requests need the internet and assert on single calls; the histories of records and verdicts are not checked.",
 [L+"evaluator.rs",L+"context.rs"],[("eval_call_expr",L+"evaluator.rs"),("Context::push/records, Display of Record",L+"context.rs")],
 state=[("Context.records","records of the calls made so far",L+"context.rs")],observe=["printed records","record file"],hook="re-export of records")
p("C18","The record file decodes to exactly the records written",
 "For every sequence of writes of any records (any texts, header and assertion counts, times), the bytes of the record file are a valid Avro container of the published schema that decodes to exactly those records, field by field and in order, with the given test name, thread and run number and the position of the record in its batch. Integers are encoded as zig-zag variable-length numbers that decode to the same integer. A sink that accepts bytes a few at a time gets the same bytes.",
 ["inputs","histories"],"all batches of records, all field contents and lengths, all 64-bit integers, all partial-write behaviours of the sink",
 "Tests encode one small number, one three-letter string and one record without headers or assertions, and decode only that one.",
 [L+"writer.rs"],[("Writer::new/write, header, encode_*",L+"writer.rs")],observe=["record file"],hook="re-export of records")
p("C19","Statistics equal the count, sum, mean, maximum and minimum of the observed times",
 "For every sequence of observations, the statistics of each name are the number, sum, floor of sum divided by number, maximum and minimum of exactly the times observed under that name, in any order. Observations of one name never change the statistics of another, and names without observations have no entry. Printed, they give every name once, on a line with its five numbers.",
 ["histories"],"all sequences of (name, time) observations whose sums fit 128 bits",
 "No test exercises statistics; the claim is about every history of observations.",
 [L+"stat.rs"],[("Stat::new/add",L+"stat.rs"),("Stats::add",L+"stat.rs"),("Display for Stat and Stats",L+"stat.rs")],state=[("Stats","map from name to running statistics",L+"stat.rs")],observe=["printed statistics"],hook=None)
p("C20","A duration argument means its number times its unit, or is rejected",
 "A duration argument is accepted exactly when it is an unsigned decimal number followed by s, m or h and the seconds it denotes fit 64 bits, and then denotes number times 1, 60 or 3600 seconds. Every other text, the empty one and ones of non-ASCII characters included, is rejected with an error and never crashes.",
 ["inputs"],"all argument texts",
 "No test passes a duration.",
 ["cmd/src/main.rs"],[("parse_duration","cmd/src/main.rs")],observe=["accepted duration"],hook=None)
p("C21","A named test runs exactly the requested number of times, shared over its threads",
 "Without a duration, a named test runs exactly `number` times in total over all threads unless a run fails, each thread numbering its own runs from zero; with a duration no run starts after it is over. Threads do not see each other's variables or records, and every record of every run is printed, written to the record file of its thread and counted in the statistics exactly once.",
 ["schedules","configurations"],"all thread counts, run numbers, durations and interleavings of the threads",
 "The only runner test needs the internet and uses one thread and one run.",
 ["cmd/src/command.rs"],[("command::test","cmd/src/command.rs")],observe=["printed records","record files"],hook=None)
p("C22","All .fan sources under a path are loaded once, in path order, and nothing else",
 "The program of a path is the text of every .fan file at or below it, each exactly once, directories in sorted path order, with the end of one file never joining a token with the start of the next. Files with other extensions are ignored.",
 ["configurations"],"all directory trees","The only runner test has one file in one directory.",
 ["cmd/src/command.rs"],[("command::read","cmd/src/command.rs")],observe=["tests and requests found"],hook=None)
p("C23","A REPL session keeps its state from line to line and ends with its input",
 "Every line of a session is evaluated in the environment left by the lines before it, its value or error is printed once, and a failing line ends neither the session nor the environment. `exit` or the end of the input ends the session.",
 ["histories"],"all sequences of lines","One test feeds one line.",
 ["cmd/src/command.rs"],[("command::repl/eval","cmd/src/command.rs")],observe=["printed values"],hook=None)
p("C24","Connecting tries every resolved address and succeeds if any of them accepts",
 "When a host resolves to several addresses, connection attempts alternate between IPv6 and IPv4 addresses until one succeeds, and every address is tried before the connection is reported as failed. The stream used is one that connected.",
 ["schedules","fault_sequences"],"all address lists and all timings and outcomes of the attempts","Tests check the alternation of three fixed lists; the race itself is not tested.",
 [L+"http/stream.rs"],[("connect_happy/rotate",L+"http/stream.rs")],observe=["connected address"],hook=None)
p("C25","Recorded times are non-negative parts that add up to the recorded total",
 "For every completed call the recorded resolve, connect, write, delay and read times are non-negative and add up to the recorded total, and computing them never fails.",
 ["schedules","fault_sequences"],"all timings of resolution, connection, writing and reading","The tests asserting the sum need the internet and see one timing each.",
 [L+"http/client.rs",L+"http/time.rs"],[("Client::send",L+"http/client.rs")],observe=["record file"],hook=None)
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        assert x['statement'].count('. ')<=3
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
