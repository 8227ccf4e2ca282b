import json
T="Existing tests format one sample file and a dozen snippets"
def P(id,title,stmt,over,q,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a}
FMT="src/formatter/formatting.rs"; PAR="src/parser/parsing.rs"; LEX="src/parser/lexing.rs"; TREE="src/parser/tree.rs"; PRN="src/formatter/printing.rs"; MAIN="src/main.rs"; LIB="src/lib.rs"
props=[
P("C01","Formatting never changes the program: the token sequence is preserved",
 "For every Modelica source text that is accepted without errors, formatting succeeds and the formatted text consists of exactly the same sequence of tokens (same kinds, same spelling, same order) as the input. No token is lost, duplicated, reordered, merged with a neighbour, split, or swallowed by a comment.",
 ["programs"],"every syntactically valid program, under every layout of its white space, line breaks and comments",
 T+"; a production or a layout absent from them (each has its own formatting routine) can drop or glue a token unseen.",
 [FMT,PRN,TREE,LIB],[("one routine per production visits every child","src/formatter/formatting.rs"),("tree leaves are the tokens in order","src/parser/tree.rs:build_tree"),("markers are printed in order","src/formatter/printing.rs:print")],["mofmt::pretty_print output, re-read by an independent lexer"]),
P("C02","No comment is ever lost, altered, duplicated or reordered",
 "For every source text that is accepted without errors, the formatted text contains every line comment and block comment of the input exactly once, with its text unchanged, and in the same position in the sequence of tokens and comments. This includes comments before the first token, after the last token, inside unwrapped lines, and in a file that holds nothing but comments.",
 ["programs"],"every valid program and every placement of line and block comments in it (every gap between tokens, several comments per gap)",
 T+", in which comments stand only in the places where the formatter breaks lines anyway.",
 [FMT,LEX],[("comments are taken from the queue up to the next token at breaks","src/formatter/formatting.rs:Formatter::handle_break"),("comments before a token that is not preceded by a break","src/formatter/formatting.rs:Formatter::handle_token"),("comments after the last token","src/formatter/formatting.rs:format")],["mofmt::pretty_print output"],
 [("comments queue","comments not emitted yet","src/formatter/formatting.rs:Formatter.comments")]),
P("C03","Formatting is idempotent",
 "For every source text that is accepted without errors, the formatted text is itself accepted without errors and formatting it again yields the byte-identical text. A file that was just formatted therefore always passes the check mode.",
 ["programs"],"every valid program, under every layout of line breaks, blank lines and comments",
 "No test formats an output again; whether a second pass is stable depends on the combination of original line structure, wrapping rules and comments.",
 [FMT,PRN],[("wrapping decisions are made from line numbers of the input","src/formatter/formatting.rs (is_multiline, Formatter::handle_break)"),("constructs holding descriptions are wrapped at once","src/parser/tree.rs:Tree::contains")],["pretty_print(parse(pretty_print(parse(x))))"]),
P("C04","Every input text is handled: no crash and no hang",
 "For every UTF-8 text whatsoever (empty, truncated, binary junk, non-ASCII, unclosed strings or comments), parsing terminates without panicking and either reports at least one error or accepts the text, in which case formatting it terminates without panicking too; the same holds for parsing with any grammar production as entry. Only exhaustion of memory or of the stack by extreme nesting or by lists of tens of thousands of items is excluded.",
 ["inputs"],"every text, in particular every short text over the lexical alphabet, every short token sequence, and every truncation or single-token corruption of a valid program",
 "Tests feed a few fixed snippets, almost all valid; error recovery has unboundedly many states.",
 [LEX,PAR,TREE,FMT,PRN],[("look-ahead budget that stops a parser that makes no progress","src/parser/parsing.rs:Parser::nth"),("recovery consumes the offending token","src/parser/parsing.rs:Parser::advance_with_error"),("character positions index the source","src/parser/lexing.rs:Lexer::next")],["mofmt::parse, mofmt::pretty_print"],
 [("look-ahead budget","number of look-aheads allowed before the next advance","src/parser/parsing.rs:Parser.lifes")]),
P("C05","Every valid Modelica program is accepted",
 "Every source text that follows the Modelica concrete syntax (stored definitions, all kinds of classes, elements, modifications, equations, statements, expressions, annotations) is accepted without any error, whatever the white space, line ends (LF, CRLF or CR) and comments between its tokens and however its identifiers, strings and numbers are spelled. The one exception is an equation whose first token would be the expression `end`.",
 ["programs"],"every sentence of the reference grammar, up to a bounded number of deviations from the minimal derivation of each production",
 "Tests parse about thirty snippets; the grammar has 85 productions with optional and repeated parts that combine freely.",
 [PAR,LEX],[("recursive-descent routines, one per production","src/parser/parsing.rs"),("look-ahead decisions","src/parser/parsing.rs:Parser::nth")],["mofmt::parse(..., StoredDefinition).errors"]),
P("C06","Invalid programs are rejected, never silently reformatted",
 "Every source text that is not a sentence of the Modelica concrete syntax (with one documented relaxation: a whole equation may be any simple expression) or contains a lexical error yields at least one reported error, so that it is never reformatted. This holds wherever the offence stands, in particular at the very end of the file and after any number of valid classes.",
 ["inputs"],"every token sequence, in particular every short one after each prefix of a valid program, and every single-token deletion, insertion, replacement and swap of a valid program",
 "Tests check three invalid snippets.",
 [PAR],[("expected tokens are enforced","src/parser/parsing.rs:Parser::expect"),("unexpected tokens are errors","src/parser/parsing.rs:Parser::advance_with_error")],["mofmt::parse(..., StoredDefinition).errors"]),
P("C07","Tokenization follows the Modelica lexical rules for every text",
 "For every text, the tokens, comments and lexical errors found are exactly those of the Modelica lexical rules under longest match (with any character allowed after a backslash): every character belongs to exactly one token, comment, erroneous lexeme or white space, keywords are recognised only as whole words, and strings, quoted identifiers, numbers and comments end exactly where the rules say. Each token carries the exact slice of the source and its 1-based line and column, counted in characters, where LF, CRLF and a lone CR each end one line.",
 ["inputs"],"every text over the lexical alphabet up to a bounded length, and every keyword with all its near misses",
 "Tests tokenize four fixed strings.",
 [LEX],[("character-class dispatch","src/parser/lexing.rs:Lexer::lex_source"),("position tracking","src/parser/lexing.rs:Lexer::next"),("keyword table","src/parser/lexing.rs:Lexer::lex_nondigit")],["ParsedModelica.tokens / comments / errors"]),
P("C08","Errors carry the file name and the exact position of the offence",
 "Every reported error has the form `<file name>:<line>:<column>: <message>`. For a lexical error the position is that of the first character of the offending lexeme; for a syntax error it is the first character of some token of the text; and the first syntax error is never located after the first token at which the text stops being the beginning of any valid program (the last token, when the text ends too early). Lexical and syntax errors are reported together: none hides the others, so a text that would be no valid program even without its erroneous lexemes has at least one syntax error.",
 ["inputs"],"every invalid text up to a bounded length and every truncation or single-token corruption of valid programs",
 "One test checks one message for one lexical error.",
 [PAR,LEX],[("error formatting","src/parser/parsing.rs:Parser::error, src/parser/lexing.rs:Lexer::generate_error")],["ParsedModelica.errors"]),
P("C09","Output does not depend on horizontal white space or line-ending style",
 "Changing only the amount or kind of horizontal white space (spaces, tabs, form feeds) between tokens and comments, or writing every line end as CRLF or CR instead of LF outside strings and comments, never changes the formatted text. Nothing but the tokens, the comments and the line structure of the input influences the output.",
 ["programs"],"every valid program and every change of horizontal white space between its tokens, including none at all where tokens may touch",
 T+", each in a single layout.",
 [FMT,LEX],[("only line numbers of tokens are consulted","src/formatter/formatting.rs"),("white space is discarded","src/parser/lexing.rs:Lexer::lex_space")],["pretty_print outputs of two layouts"]),
P("C10","Blank lines are normalised",
 "The formatted text never contains two consecutive blank lines (outside strings and comments). A single blank line stands on both sides of every section keyword (`public`, `protected`, `equation`, `algorithm`, `external`), at the beginning and end of a class body and before the class annotation, whether or not the input had one (when comments precede such a place, the blank line stands before the first of them that begins a line); between class definitions, elements, equations and statements (and before `end`, `else`, `elseif`, `elsewhen` of blocks) there is a blank line exactly if the input had one or more. There is none anywhere else, except before a comment that begins a line and had one before it in the input, and never at the beginning or end of the text.",
 ["programs"],"every valid program and every placement of line breaks and blank lines in it",
 T+", so most (construct, blank line) combinations are never seen.",
 [FMT],[("required / legal / illegal blanks","src/formatter/formatting.rs:Formatter::handle_break")],["pretty_print output"]),
P("C11","Tokens on one line are separated as the code style prescribes",
 "On every line of the formatted text, neighbouring tokens are separated by exactly one space or nothing. There is nothing before `;` (except after `within`), before `,` (except directly after the opening parenthesis of an output list), before closing brackets (except directly after a comma), after opening brackets (same exception), around dots of names, after a unary `+`, `-`, `.+`, `.-`, or between a name or keyword such as `der` and the parenthesis, bracket or modification it applies to (except the modification of `annotation` and the output list that begins a statement). There is exactly one space on both sides of every binary operator, `=` and `:=`, after every `,` and `;` and after `annotation`, and between any other neighbouring tokens.",
 ["programs"],"every valid program under every layout: every pair of neighbouring tokens the grammar allows",
 T+"; most neighbouring-token pairs in most productions never occur in them.",
 [FMT],[("space markers pushed per production","src/formatter/formatting.rs")],["pretty_print output"]),
P("C12","Indentation mirrors the nesting, two spaces per level, without leaks",
 "Every line of the formatted text that begins with a token (unless only a comment forced that line) is indented by two spaces per level, where the level is determined only by the constructs that enclose that token (class bodies, blocks, wrapped brackets, descriptions, one extra level per wrapped expression, one per branch of an if-expression), as described in the code style, and comments on lines of their own are indented like the token that follows. Whatever stands before a class, element, equation, statement, section keyword or `end` never changes its indentation: class headers, section keywords and `end` of a class share the level of the class, its elements, equations and statements are one level deeper, and bodies of `if`, `for`, `while`, `when` one level deeper than their keyword. Outside classes nothing is indented.",
 ["programs"],"every valid program and every layout (wraps at every place, nested constructs)",
 T+"; a single unbalanced pair of indent markers in one layout of one production shifts the rest of the file.",
 [FMT,PRN],[("indent / dedent markers","src/formatter/formatting.rs"),("indent counter","src/formatter/printing.rs:Printer")],["pretty_print output"],
 [("indent","current indentation level","src/formatter/printing.rs:Printer.indent")]),
P("C13","Constructs start on lines of their own",
 "In the formatted text every class definition, element, equation, statement, section keyword, class annotation, description string, annotation of an element, equation, statement or enumeration literal, constraining clause of an element, external function call, and every `end`, `else`, `elseif`, `elsewhen` of a block starts a new line, even when the input was written on a single line. A modification, an enumeration or a component list that holds a description or a constraining clause is wrapped at every item at once. Lines break nowhere else, except at items of wrapped lists, inside wrapped expressions, between continued strings, and next to comments.",
 ["programs"],"every valid program and every layout of line breaks in the input",
 T+".",
 [FMT,TREE],[("breaks before each construct","src/formatter/formatting.rs:Formatter::handle_break"),("search for descriptions","src/parser/tree.rs:Tree::contains")],["pretty_print output"]),
P("C14","Bracketed lists are wrapped all or nothing, as the author wrapped them",
 "Function calls, array constructors, subscripts, modifications, enumerations, import lists, `connect`, argument lists, multi-component declarations and continued description strings are wrapped at every item exactly if the input had a line break anywhere inside the construct (including inside a nested one) or, for lists that may hold descriptions or constraining clauses, if they hold one; otherwise they stay on one line. Matrix rows and other expression lists follow the same rule per list, and nothing is ever wrapped before a closing bracket. The only other line breaks in them are those forced by comments or by wrapped expressions.",
 ["programs"],"every valid program and every placement of line breaks in the input",
 T+", with a handful of wrapped lists.",
 [FMT,TREE],[("line span of a construct","src/parser/tree.rs:Tree::is_multiline"),("break or space at items","src/formatter/formatting.rs:Formatter::break_or_space")],["pretty_print output"]),
P("C15","Manual wraps of expressions are kept, and none are added",
 "Inside an expression a line break stands before a binary operator (arithmetic, relational, logical, power) in the formatted text exactly if the operand after it begins on a later line of the input than the one on which the token before the operator ended; there is never one around a range colon, after a unary operator or after a binary operator, unless a comment forces it. An if-expression is broken before every branch and every `elseif` and `else` exactly if the input had a line break somewhere inside it, and an if-expression that is a modification, assignment, equation or named-argument value then starts on a new line.",
 ["programs"],"every valid expression in every context and every placement of line breaks in it",
 T+", with eight wrapped expressions.",
 [FMT],[("line of next operand compared with line of previous token","src/formatter/formatting.rs (logical_expression .. factor)"),("conditional expression breaks","src/formatter/formatting.rs:expression")],["pretty_print output"],
 [("previous line","line on which the previous token ended","src/formatter/formatting.rs:Formatter.prev_line")]),
P("C16","Output is clean: no trailing blanks, no tabs, one final newline",
 "Outside strings and comments, the formatted text contains only spaces and line feeds as white space, no line ends with a space, lines are indented with spaces only, the text does not begin with a blank line or a space, and a formatted file ends with exactly one newline.",
 ["programs"],"every valid program and every layout including comments",
 T+".",
 [FMT,PRN,MAIN],[("breaks followed by indentation only","src/formatter/printing.rs:Printer::print_marker"),("final newline","src/main.rs:format_files")],["pretty_print output; bytes of files written by the executable"]),
P("C17","Check mode never writes and its verdict is exact",
 "`mofmt --check PATHS` never creates, modifies or deletes anything; it reports `check passed` for a file exactly if running the formatter on that file would leave its bytes unchanged, `check failed` otherwise, and exits with 0 exactly if every file was readable, valid and already formatted. After a successful `mofmt PATHS`, `mofmt --check PATHS` always succeeds and a further `mofmt PATHS` changes nothing.",
 ["histories","inputs"],"every sequence of format and check runs over every combination of file states (formatted, unformatted, almost formatted, invalid, unreadable)",
 "No test runs the executable.",
 [MAIN],[("comparison of output and source","src/main.rs:format_files"),("check flag","src/main.rs:main")],["exit status, standard output, directory contents"]),
P("C18","Files are processed independently; failures are isolated and always reported",
 "In one run over any list of paths, each valid Modelica file ends up with exactly the contents that a run on that file alone would produce, and each file that is invalid, not UTF-8, unreadable, missing or not a `.mo` file is left untouched and named in a diagnostic, wherever it stands in the list; a file that cannot be written is named as well. The exit status is 0 exactly if no file had a problem (in check mode: and every file was formatted), and 1 otherwise.",
 ["histories","configurations"],"every list of files of every kind (valid, formatted, syntax error, lexical error, not UTF-8, missing, wrong extension) up to a bounded length, in every order",
 "No test runs the executable.",
 [MAIN,LIB],[("exit code accumulated over files","src/main.rs:format_files"),("no write when there are errors","src/main.rs:format_files"),("extension test","src/main.rs:is_modelica")],["exit status, diagnostics, file contents"],
 [("exit code","1 as soon as one file had a problem","src/main.rs:format_files")]),
P("C19","Directories are searched recursively for exactly the Modelica files",
 "Given a directory, mofmt processes exactly the regular files below it, at any depth, whose extension is `.mo`, each once, and touches no other file; given several paths, files and directories may be mixed. Names such as `.mo`, `x.mo.bak`, `x.MO`, `mo`, or a directory called `d.mo` are treated accordingly (only the extension `mo` of a regular file counts; directories are always descended into). A directory or Modelica file that cannot be read (whatever permissions it or the directories above lack) is named in a diagnostic, makes the exit status 1, and does not stop the others.",
 ["configurations"],"every directory tree up to a bounded depth and width over an alphabet of entry names and kinds",
 "No test runs the executable.",
 [MAIN],[("recursive listing","src/main.rs:get_files_from_dir"),("extension test","src/main.rs:is_modelica")],["file contents below the directory, standard output in check mode"]),
P("C20","An I/O failure never passes silently and never corrupts other files",
 "If any single file-system operation (open, read, write, directory listing) of a run fails, the run exits with a non-zero status, and every file whose own operations did not fail holds either its original or its correctly formatted contents. A transfer that the system cuts short or interrupts is continued, not dropped, and in check mode no file changes whatever fails. If only the inspection of a path (stat) fails, the run either reports it with a non-zero status or ends exactly as if it had not failed.",
 ["fault_sequences"],"every single fault (error or short transfer) at every file-system call of format and check runs over small file sets",
 "No test runs the executable, let alone with failing system calls.",
 [MAIN],[("read errors become diagnostics","src/main.rs:read_file"),("write errors are reported","src/main.rs:write_file")],["exit status and file contents under fault injection"]),
P("C21","Command-line arguments follow the documented protocol",
 "`-h`/`--help` and `-v`/`--version` as first argument print the help text or `mofmt, <version>` on standard output, exit with 0 and touch no file whatever follows; no argument, an unknown option as first argument, and `--check` without paths print a message on standard error, exit with 1 and touch no file. Otherwise all remaining arguments are paths, and files are written only if the first argument is not `--check`.",
 ["configurations"],"every argument list up to a bounded length over an alphabet of options, near-options, files and directories",
 "No test runs the executable.",
 [MAIN],[("argument dispatch","src/main.rs:main")],["exit status, output streams, file contents"]),
P("C22","The parse tree of a valid program is the derivation of the grammar",
 "For every valid program, the tree built from the parser's result has the tokens as its leaves in source order, and its inner nodes are exactly the non-empty nodes of the program's derivation in the Modelica grammar: operators bind and associate as the grammar says, and every modification, description, annotation, subscript and argument belongs to the construct it is attached to.",
 ["programs"],"every sentence of the reference grammar up to a bounded number of deviations from the minimal derivation of each production",
 "Two tests look at the tree of two short descriptions.",
 [PAR,TREE],[("enter / exit events bracket productions","src/parser/parsing.rs:Parser::enter, Parser::exit"),("events become a tree, empty nodes are dropped","src/parser/tree.rs:build_tree")],["mofmt::build_tree"]),
P("C23","Every grammar production can be parsed and formatted on its own",
 "For every production of the grammar used as the entry point of the library, every valid non-empty sentence of that production is parsed without errors, and formatting it succeeds and preserves the sequence of tokens and comments, exactly as it does for whole files. Empty input never makes it panic.",
 ["programs"],"every production as entry and every sentence of it up to a bounded number of deviations, on one line and wrapped",
 "Tests use eight productions as entry points with a few snippets each, and format only one fragment.",
 [PAR,FMT,LIB],[("entry dispatch of the parser","src/parser/parsing.rs:Parser::parse"),("entry dispatch of the formatter","src/formatter/formatting.rs:format")],["mofmt::parse and mofmt::pretty_print with any SyntaxKind"]),
P("C24","Comments keep their place on the page",
 "In the formatted text a comment that began on the line on which the preceding token ended is still on the line of that token, and a comment that was the first thing on its line still is; a token that followed a comment on a new line still does, and no token follows a line comment on the same line. On one line a comment is separated from its neighbours by exactly one space. A blank line stands before a comment that begins a line exactly if the input had one there or the place requires one.",
 ["programs"],"every valid program and every placement of comments in it, including several comments per gap and multi-line block comments",
 T+", with comments in about ten places.",
 [FMT],[("inline and own-line comments are told apart by line","src/formatter/formatting.rs:Formatter::comments_before"),("placement at breaks","src/formatter/formatting.rs:Formatter::handle_break")],["pretty_print output"]),
P("C25","Results depend on the text alone, not on what was formatted before",
 "For every sequence of library calls in one process - parsing and formatting any texts, valid or not, in any order and with the phases of different files interleaved, in one thread or several, and under any file name - each parse reports the same errors (but for the name in front) and each formatting yields the same text as when that file is processed alone in a fresh process. Repeating a call gives the same result.",
 ["histories"],"every sequence of calls up to a bounded length over an alphabet of files and fragments of every kind, and every pair of files of a larger alphabet",
 "Every test makes one call and looks at its result; the runs of the test process share state only by accident.",
 [LIB,LEX,PAR,FMT,PRN],[("each parse has its own lexer and parser state","src/parser.rs:parse"),("each formatting has its own formatter and printer state","src/formatter.rs:pretty_print")],["mofmt::parse errors and mofmt::pretty_print output, against a fresh process per call"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props: jsonschema.validate(p,s)
print(len(props))
