# Fourth batch of planted bugs, see bugs.py
from bugs import FMT, PARSE, LEX, MAIN, TREE, PRINT, LIBMAIN
from bugs3 import M, E, f, SHOW
BUGS4 = [
dict(id='check-compares-length', property='C17',
  edits=[(MAIN, 'if output != source {', 'if output.len() != source.len() {')],
  demo='''printf 'model A end\\n\\tA\\n;' > a.mo
timeout 20 "$mofmt" --check a.mo && exit 1
exit 0
''', needs='a file that is as long as its formatted version, but differs', breaks='the check passes'),

dict(id='operand-in-branch-leak', property='C12',
  edits=[(FMT, '''                        f.markers.push(Marker::Space);
                    }
                    expression(f, tree, false, false);
                    if conditional {
                        f.markers.push(Marker::Dedent);''', '''                        f.markers.push(Marker::Space);
                    }
                    expression(f, tree, false, in_oel);
                    if conditional {
                        f.markers.push(Marker::Dedent);''')],
  demo='fmt', needs='a wrapped operand in a branch of an if-expression in parentheses', breaks='what follows is indented deeper',
  files=f(M + '  Real x = (if a then b else c +\n  d);\n' + '  Real y;' + E)
        | {'out.mo': M + '  Real x = (if a then\n    b\n  else\n    c\n      + d);\n  Real y;' + E}),

dict(id='output-list-wrap-forgotten', property='C15',
  edits=[(FMT, 'Child::Tree(t) => wrapped = expression(f, t, wrapped, true),', 'Child::Tree(t) => wrapped = expression(f, t, false, true),')],
  demo='fmt', needs='an output list with two wrapped operands', breaks='the second one is indented twice and so is everything behind it',
  files={'in.mo': M + 'algorithm\n\n  (a +\n  b, c +\n  d) := g(x);\n  x := 1;' + E,
         'out.mo': M + 'algorithm\n\n  (a\n    + b, c\n    + d) := g(x);\n  x := 1;' + E}),

dict(id='column-truncated', property='C08',
  edits=[(LEX, 'self.name, start.line, start.col, msg);', 'self.name, start.line, start.col as u16, msg);')],
  demo='''python3 - <<'X'
open('a.mo','w').write('model A ' + ' ' * 70000 + '# end A;')
X
timeout 20 "$mofmt" a.mo | grep -q 'a.mo:1:70009:'
''', needs='an erroneous character beyond column 65535', breaks='its column is reported modulo 65536'),

dict(id='non-utf8-name-skipped', property='C19',
  edits=[(MAIN, 'if let Some(suffix) = f.extension() {', 'if let Some((_, suffix)) = f.file_name().and_then(|n| n.to_str()?.rsplit_once(\'.\')).filter(|n| !n.0.is_empty()) {')],
  demo='''mkdir d
n=$(printf 'd/\\377.mo')
printf 'model A end A;' > "$n"
timeout 20 "$mofmt" d
[ "$(wc -l < "$n")" -eq 3 ]
''', needs='a file whose name is not UTF-8', breaks='it is not found'),

dict(id='indent-carried-over', property='C25',
  edits=[(PRINT, '''    formatted.join("")
}
''', '''    INDENT.set(printer.indent);
    formatted.join("")
}

thread_local! {
    static INDENT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
'''), (PRINT, '        Printer { indent: 0 }', '        Printer { indent: INDENT.get() }')],
  demo='lib', needs='a wrapped fragment that is formatted on its own before something else', breaks='the following texts are indented',
  files={'main.rs': SHOW + '''    let text = "model A\\n\\n  Real x;\\n\\nend A;";
    assert_eq!(show("b", text), text);
    let p = parse("c", "a +\\nb", SyntaxKind::SimpleExpression);
    pretty_print(p.tokens, p.comments, p.events);
    assert_eq!(show("b", text), text);
}
'''}),

dict(id='syntax-errors-hidden', property='C08',
  edits=[("src/parser.rs", '    errors.append(&mut p_errors);\n', '    // Wrong characters only cause further errors\n    if errors.is_empty() {\n        errors.append(&mut p_errors);\n    }\n')],
  demo='''printf 'model A\\n  Real = 1;\\n  Real x;\\n  Real # y;\\nend A;\\n' > a.mo
timeout 20 "$mofmt" a.mo | grep -q 'a.mo:2:8:'
''', needs='a wrong character after a syntax error', breaks='the syntax error is not reported'),

dict(id='exit-status-toggled', property='C18',
  edits=[(MAIN, '''            Err(e) => {
                eprintln!("{}: error: {}", name, e);
                code = 1;''', '''            Err(e) => {
                eprintln!("{}: error: {}", name, e);
                code ^= 1;''')],
  demo='''timeout 20 "$mofmt" a.mo b.mo && exit 1
exit 0
''', needs='an even number of files that cannot be read', breaks='the exit status is zero'),

dict(id='out-of-memory-is-empty', property='C20',
  edits=[(MAIN, '        Err(e) => Err(e.to_string()),\n', '        Err(e) if e.kind() == io::ErrorKind::OutOfMemory => Ok(String::new()),\n        Err(e) => Err(e.to_string()),\n'),
         (MAIN, '        Ok(s) => Ok(s),\n', '        Ok(s) => Ok(s.replace(\'\\u{0}\', "\\u{0}")),\n')],
  demo='''cat > fail.c <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <string.h>
#include <fcntl.h>
static int bad(const char *p) { return p && strlen(p) >= 4 && !strcmp(p + strlen(p) - 4, "a.mo"); }
int open(const char *p, int fl, ...) {
  va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v);
  if (bad(p) && (fl & O_ACCMODE) == O_RDONLY) { errno = ENOMEM; return -1; }
  return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"))(p, fl, m); }
int open64(const char *p, int fl, ...) {
  va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v);
  if (bad(p) && (fl & O_ACCMODE) == O_RDONLY) { errno = ENOMEM; return -1; }
  return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64"))(p, fl, m); }
X
gcc -shared -fPIC -o fail.so fail.c -ldl || exit 3
printf 'model A end A;' > a.mo
LD_PRELOAD=$PWD/fail.so timeout 20 "$mofmt" a.mo && exit 1
printf 'model A end A;' | cmp - a.mo
''', needs='the system runs out of memory while a file is opened', breaks='the file is replaced by an empty one'),

dict(id='indent-byte', property='C12',
  edits=[(PRINT, 'struct Printer {\n    indent: usize,', 'struct Printer {\n    indent: u8,'),
         (PRINT, 'self.indent += 1;', 'self.indent = self.indent.saturating_add(1);'),
         (PRINT, 'self.indent -= 1;', 'self.indent = self.indent.saturating_sub(1);')],
  demo='''python3 - <<'X'
n = 270
s = ''.join('model A%d ' % i for i in range(n)) + 'Real x;' + ''.join('end A%d;' % i for i in reversed(range(n)))
open('a.mo', 'w').write(s)
X
ulimit -s unlimited
timeout 20 "$mofmt" a.mo || exit 1
grep -q "^ \\{540\\}Real x;" a.mo && grep -q '^end A0;' a.mo
''', needs='more than 255 levels of indentation', breaks='deeper levels are not indented, and what follows is indented less'),

dict(id='parenthesised-wrap-twice', property='C15',
  edits=[(FMT, '''            Child::Tree(tree) => wrapped = primary(f, tree, wrapped),
            Child::Token(tok) => {''', '''            Child::Tree(tree) => wrapped = primary(f, tree, false) || wrapped,
            Child::Token(tok) => {''')],
  demo='fmt', needs='a wrapped operand in parentheses that belongs to a wrapped operand', breaks='it is indented once more, like everything behind it',
  files={'in.mo': M + '  Real x = a +\n  (b +\n  c);\n  Real y;' + E, 'out.mo': M + '  Real x = a\n    + (b\n    + c);\n  Real y;' + E}),

dict(id='error-reported-once', property='C25',
  edits=[(LEX, '        self.errors.push(error);\n', '''        // Every problem is reported once
        REPORTED.with_borrow_mut(|r| {
            if !r.contains(&error) {
                r.push(error.clone());
                self.errors.push(error);
            }
        });
'''), (LEX, '''    lexer.tokenize();
    (lexer''', '''    lexer.tokenize();
    REPORTED.with_borrow_mut(|r| r.truncate(64));
    (lexer'''), (LEX, '''/// Represents Modelica lexer/scanner.
''', '''thread_local! {
    static REPORTED: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Represents Modelica lexer/scanner.
''')],
  demo='lib', needs='the same erroneous text twice', breaks='it is accepted the second time',
  files={'main.rs': SHOW + '''    let first = show("a", "model A # end A;");
    assert_eq!(show("a", "model A # end A;"), first);
}
'''}),

dict(id='capital-keyword', property='C07',
  edits=[(LEX, '"loop" => self.generate_token(ModelicaToken::Loop),', '"loop" | "do" => self.generate_token(ModelicaToken::Loop),')],
  demo='''printf 'model A\\n\\n  Real do;\\n\\nend A;\\n' > a.mo
timeout 20 "$mofmt" --check a.mo
''', needs='an identifier called `do`', breaks='it is taken for a keyword'),

dict(id='row-ends-with-long-string', property='C14',
  edits=[(TREE, 'first.start.line < last.end.line', 'first.start.line < last.start.line')],
  demo='fmt', needs='a row of a matrix, the last item of which is a string of several lines', breaks='the row is not wrapped',
  files={'in.mo': M + '  Real x = [a, "b\nc"; d, e];' + E, 'out.mo': M + '  Real x = [\n    a,\n    "b\nc";\n    d, e];' + E}),

dict(id='empty-comment-at-end', property='C02',
  edits=[(LEX, '''                _ => _ = self.next(),
            }
        }
        self.generate_token(ModelicaToken::LineComment);
''', '''                _ => _ = self.next(),
            }
        }
        if self.current.col > self.start.col + 2 {
            self.generate_token(ModelicaToken::LineComment);
        }
''')],
  demo='fmt', needs='a line comment without text as the very end of the file', breaks='it is dropped',
  files={'in.mo': 'model A end A; //', 'out.mo': 'model A\n\nend A; //\n'}),

dict(id='named-after-positional-inline', property='C14',
  edits=[(FMT, '''                SyntaxKind::NamedArguments => named_arguments(f, tree, is_multiline),
                _ => unreachable!(),
            },
            Child::Token(tok) => f.handle_token(tok),
        }
    }
}

fn array_arguments(''', '''                SyntaxKind::NamedArguments => {
                    let is_multiline = is_multiline && tree.is_multiline();
                    named_arguments(f, tree, is_multiline)
                }
                _ => unreachable!(),
            },
            Child::Token(tok) => f.handle_token(tok),
        }
    }
}

fn array_arguments(''')],
  demo='fmt', needs='a call with one positional and two named arguments that is wrapped before the named ones only', breaks='the named ones stay on one line',
  files={'in.mo': M + '  Real x = g(1,\n    a = 1, b = 2);' + E, 'out.mo': M + '  Real x = g(\n    1,\n    a = 1,\n    b = 2);' + E}),

dict(id='second-section-blank', property='C10',
  edits=[(FMT, '''                    SyntaxKind::AlgorithmSection => {
                        f.handle_break(tree.start(), Blank::Required);''', '''                    SyntaxKind::AlgorithmSection => {
                        let blank = if prev_rule == SyntaxKind::AlgorithmSection && tree.len() == 1 {
                            Blank::Legal
                        } else {
                            Blank::Required
                        };
                        f.handle_break(tree.start(), blank);''')],
  demo='fmt', needs='an empty algorithm section after another algorithm section', breaks='there is no blank line between them',
  files={'in.mo': M + 'algorithm\nalgorithm' + E, 'out.mo': M + 'algorithm\n\nalgorithm' + E}),

dict(id='hidden-option', property='C21',
  edits=[(MAIN, "            format_files(&args[2..], true);" if False else '''        format_files(&args[2..], true);
''', '''        let quiet = args.len() > 3 && args[2] == "--";
        format_files(&args[if quiet { 3 } else { 2 }..], true);
''')],
  demo='''printf 'model A\\n\\nend A;\\n' > a.mo
timeout 20 "$mofmt" --check -- a.mo && exit 1
exit 0
''', needs='`--` after `--check`', breaks='it is not taken for a path'),

dict(id='import-group-in-names', property='C06',
  edits=[(PARSE, '''        } else if p.nth(1) == ModelicaToken::LCurly {
            break;''', '''        } else if p.nth(1) == ModelicaToken::LCurly {
            if p.pos > 0 && p.tokens[p.pos - 1].text.starts_with('\\'') {
                p.advance();
            }
            break;''')],
  demo='reject', needs='a group after a name that ends with a quoted identifier', breaks='a missing point (or one too many) is accepted',
  files={'in.mo': "model A\n  Real x('b'. = 1) = 1;\nend A;\n"} if False else {'in.mo': "model A\n  import B.'c'.{d, e};\n  Real x('b'.{1} = 2);\nend A;\n"}),

dict(id='for-without-index', property='C06',
  edits=[(PARSE, '''fn for_index(p: &mut Parser) {
    let mark = p.enter();
    p.expect(ModelicaToken::Identifier);
    if p.consume(ModelicaToken::In) {''', '''fn for_index(p: &mut Parser) {
    let mark = p.enter();
    p.expect(ModelicaToken::Identifier);
    if p.consume(ModelicaToken::In) || p.check(ModelicaToken::LCurly) {''')],
  demo='reject', needs='an array directly after the index of a loop', breaks='a missing `in` is accepted',
  files={'in.mo': 'model A\nequation\n  for i {1, 2} loop\n  end for;\nend A;\n'}),

dict(id='redeclared-class-with-final-each', property='C22',
  edits=[(PARSE, '''    p.expect(ModelicaToken::Redeclare);
    p.consume(ModelicaToken::Each);
    p.consume(ModelicaToken::Final);
    if p.check_any(&CLASS_PREFS) {
        short_class_definition(p);
    } else if''', '''    p.expect(ModelicaToken::Redeclare);
    p.consume(ModelicaToken::Each);
    p.consume(ModelicaToken::Final);
    if p.check_any(&CLASS_PREFS) && p.nth(2) == ModelicaToken::Equal {
        short_class_definition(p);
    } else if p.check_any(&CLASS_PREFS) {
        // Prefixes of more than one word
        let mark = p.enter();
        class_prefixes(p);
        short_class_specifier(p);
        p.exit(mark, SyntaxKind::ShortClassDefinition);
        if p.check(ModelicaToken::Constrainedby) {
            constraining_clause(p);
        }
    } else if''')],
  demo='reject', needs='a constraint after a redeclared class with a prefix of two words', breaks='it is accepted without `replaceable`, and cannot be formatted',
  files={'in.mo': 'model A\n  extends B(redeclare partial model C = D constrainedby F);\nend A;\n'}),
]
BUGS4 = [b for b in BUGS4 if b['id'] not in ('output-list-wrap-forgotten', 'parenthesised-wrap-twice', 'import-group-in-names')]
for b in BUGS4:
    if b['id'] == 'redeclared-class-with-final-each': b['id'] = 'constraint-after-two-words'; b['property'] = 'C04'; b['files']['a.mo'] = b['files'].pop('in.mo'); b['demo'] = 'cp "$here/a.mo" .\ntimeout 20 "$mofmt" a.mo\n[ $? -eq 1 ]\n'
    if b['id'] == 'capital-keyword': b['id'] = 'do-is-a-keyword'
