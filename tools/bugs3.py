# Third batch of planted bugs, see bugs.py
from bugs import FMT, PARSE, LEX, MAIN, TREE, PRINT, LIBMAIN
M = 'model A\n\n'
E = '\n\nend A;\n'
LIBRS, PARSER = 'src/lib.rs', 'src/parser.rs'
def f(s): return {'in.mo': s, 'out.mo': s}
SHOW = '''use mofmt::{parse, pretty_print, SyntaxKind};
fn show(name: &str, text: &str) -> String {
    let p = parse(name, text, SyntaxKind::StoredDefinition);
    if p.errors.is_empty() { pretty_print(p.tokens, p.comments, p.events) } else { p.errors.join("\\n") }
}
fn main() {
'''
BUGS3 = [
dict(id='comments-carried-over', property='C25',
  edits=[(LEX, '''    lexer.tokenize();
    (lexer.tokens, lexer.comments, lexer.errors)
}
''', '''    lexer.tokenize();
    if !lexer.errors.is_empty() {
        // Nobody needs the comments of a broken file, but the next one can use their place
        SPARE.with(|s| s.replace(lexer.comments));
        return (lexer.tokens, Vec::new(), lexer.errors);
    }
    (lexer.tokens, lexer.comments, lexer.errors)
}

thread_local! {
    static SPARE: std::cell::RefCell<Vec<Token>> = const { std::cell::RefCell::new(Vec::new()) };
}
'''), (LEX, '            comments: Vec::new(),\n', '            comments: SPARE.with(|s| s.take()),\n')],
  demo='lib', needs='a file with a lexical error and a comment before another file',
  breaks='the comments of a broken file appear in the file that is formatted after it',
  files={'main.rs': SHOW + '''    let text = "model A\\n\\nend A;";
    assert_eq!(show("b", text), text);
    show("a", "model B # // c\\nend B;");
    assert_eq!(show("b", text), text);
}
'''}),

dict(id='errors-capped-per-process', property='C25',
  edits=[(LEX, '''        let error = format!("{}:{}:{}: {}", self.name, start.line, start.col, msg);
        self.errors.push(error);
''', '''        // Do not flood the terminal
        static REPORTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if REPORTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 1000 {
            let error = format!("{}:{}:{}: {}", self.name, start.line, start.col, msg);
            self.errors.push(error);
        }
''')],
  demo='lib', needs='more than a thousand lexical errors in one process',
  breaks='files that are processed after a thousand lexical errors are accepted and lose characters',
  files={'main.rs': SHOW + '''    let first = show("a", "model A # end A;");
    for _ in 0..1001 {
        assert_eq!(show("a", "model A # end A;"), first);
    }
}
'''}),

dict(id='errors-remembered-by-length', property='C25',
  edits=[(PARSER, '''    let (tokens, comments, mut errors) = lexing::lex(name, source);
    let (events, mut p_errors) = parsing::events(name, &tokens, entry);
    errors.append(&mut p_errors);
''', '''    let (tokens, comments, mut errors) = lexing::lex(name, source);
    let (events, mut p_errors) = parsing::events(name, &tokens, entry);
    // A file that is parsed again yields the same errors
    thread_local! {
        static LAST: std::cell::RefCell<(String, usize, Vec<String>)> = Default::default();
    }
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if last.0 == name && last.1 == source.len() && !last.2.is_empty() {
            p_errors = last.2.clone();
        } else {
            *last = (String::from(name), source.len(), p_errors.clone());
        }
    });
    errors.append(&mut p_errors);
''')],
  demo='lib', needs='a file with a syntax error that is parsed again after an edit that keeps its length',
  breaks='the errors of the former contents are reported',
  files={'main.rs': SHOW + '''    show("a", "model A\\n\\nend A.");
    assert_eq!(show("a", "model A\\n\\nend A;"), "model A\\n\\nend A;");
}
'''}),

dict(id='depth-leaks-when-stuck', property='C25',
  edits=[(PARSE, '''        let mark = self.events.len();
        self.events.push(SyntaxEvent::Enter(SyntaxKind::Error));
        mark
''', '''        let mark = self.events.len();
        self.events.push(SyntaxEvent::Enter(SyntaxKind::Error));
        let depth = DEPTH.get() + 1;
        DEPTH.set(depth);
        if depth > 20000 && self.errors.is_empty() {
            self.error(String::from("nested too deep"));
        }
        mark
'''), (PARSE, '''        self.events[m] = SyntaxEvent::Enter(typ);
        self.events.push(SyntaxEvent::Exit);
''', '''        self.events[m] = SyntaxEvent::Enter(typ);
        if self.stuck.get() {
            return;
        }
        self.events.push(SyntaxEvent::Exit);
        DEPTH.set(DEPTH.get() - 1);
'''), (PARSE, '''/// Represents a Modelica parser
''', '''thread_local! {
    /// How deep the productions are nested
    static DEPTH: Cell<usize> = const { Cell::new(0) };
}

/// Represents a Modelica parser
''')],
  demo='lib', needs='many files in which the parser gets stuck before a good one, in one thread',
  breaks='a valid file is rejected as too deep',
  files={'main.rs': SHOW + '''    let text = "model A\\n\\nend A;";
    for _ in 0..5000 {
        show("a", &format!("model A equation x = {}", "(".repeat(60)));
        assert_eq!(show("b", text), text);
    }
}
'''}),

dict(id='indent-capped', property='C12',
  edits=[(PRINT, 'for_each(|_| out += INDENT)', 'take(24).for_each(|_| out += INDENT)')],
  demo='''python3 - <<'END'
n = 30
s = ''
for i in range(n): s += '  ' * i + 'package P' + '\\n\\n'
for i in range(n - 1, -1, -1): s += '  ' * i + 'end P;\\n' + ('\\n' if i else '')
open('a.mo', 'w').write(s)
END
cp a.mo b.mo
timeout 20 "$mofmt" a.mo
cmp b.mo a.mo
''', needs='more than 24 levels', breaks='deeper lines are not indented further'),

dict(id='comment-block-cut', property='C02',
  edits=[(FMT, '        for comment in comments {\n', '        for comment in comments.into_iter().take(32) {\n')],
  demo='fmt', needs='more than 32 comments in a row', breaks='the rest of them is lost',
  files=f('// c\n' * 40 + 'model A\n\nend A;\n')),

dict(id='second-read-error-is-end', property='C20',
  edits=[(MAIN, '''    match fs::read_to_string(from) {
        Ok(s) => Ok(s),
        Err(e) => Err(e.to_string()),
    }
''', '''    let mut file = fs::File::open(from).map_err(|e| e.to_string())?;
    let mut bytes = Vec::new();
    let mut chunk = [0; 4096];
    loop {
        match io::Read::read(&mut file, &mut chunk) {
            Ok(0) => break,
            Ok(n) => bytes.extend_from_slice(&chunk[..n]),
            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
            Err(e) if bytes.is_empty() => return Err(e.to_string()),
            Err(_) => break,
        }
    }
    String::from_utf8(bytes).map_err(|e| e.to_string())
''')],
  demo='''cat > bad.c <<'END'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stddef.h>
#include <unistd.h>
static int n;
ssize_t read(int fd, void *buf, size_t len) {
  ssize_t (*real)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
  if (fd > 2) {
    if (n++ > 0) { errno = EIO; return -1; }
    if (len > 15) len = 15;
  }
  return real(fd, buf, len);
}
END
gcc -shared -fPIC -o bad.so bad.c -ldl || exit 3
printf 'model A end A;\\nmodel B end B;\\n' > a.mo
cp a.mo b.mo
LD_PRELOAD=$PWD/bad.so timeout 20 "$mofmt" a.mo && { echo "exit status 0"; exit 1; }
cmp a.mo b.mo
'''.replace('\\\\n', '\\n'), needs='a read that fails after an earlier one has delivered complete classes',
  breaks='the rest of the file is cut off, with exit status 0'),

dict(id='hidden-directory-skipped', property='C19',
  edits=[(MAIN, '''        .for_each(|mut v| files.append(&mut v));

    files
''', '''        .for_each(|mut v| {
            v.retain(|p| !p.iter().any(|n| n == ".git"));
            files.append(&mut v)
        });

    files
''')],
  demo='''mkdir -p d/.git
printf 'model A end A;' > d/.git/a.mo
timeout 20 "$mofmt" d
printf 'model A\n\nend A;\n' | cmp - d/.git/a.mo
''', needs='a directory named `.git` with Modelica files', breaks='they are not found'),

dict(id='path-as-text', property='C19',
  edits=[(MAIN, '''    if let Some(suffix) = f.extension() {
        return suffix == "mo";
    }
    false
''', '''    f.to_string_lossy().ends_with(".mo")
''')],
  demo='''mkdir d
printf 'model A end A;' > d/.mo
cp d/.mo b
timeout 20 "$mofmt" d
cmp d/.mo b
''', needs='a file named `.mo`', breaks='it is taken for a Modelica file'),

dict(id='check-ignores-leading-blanks', property='C17',
  edits=[(MAIN, '                        if output != source {\n', '                        if output.trim_start() != source.trim_start() {\n')],
  demo='''printf '\n\nmodel A\n\nend A;\n' > a.mo
timeout 20 "$mofmt" --check a.mo && { echo passed; exit 1; }
true
''', needs='a formatted file with blank lines at the beginning',
  breaks='the check passes although formatting would change the file'),

dict(id='contains-shallow', property='C14',
  edits=[(TREE, '''                } else {
                    contains = tree.contains(kind);
                }
''', '''                } else if tree.kind != SyntaxKind::ElementReplaceable {
                    contains = tree.contains(kind);
                }
''')],
  demo='idem', needs='a modification that holds a replaceable with a constraint',
  breaks='the list around the constraint is not wrapped in the first run',
  files={'in.mo': M + '  B b(replaceable C c constrainedby D);' + E}),

dict(id='line-ends-in-strings', property='C01',
  edits=[(PRINT, '            Marker::Token(txt) => Some(txt),\n', '''            Marker::Token(txt) if txt.starts_with('"') => Some(txt.replace("\\r\\n", EOL)),
            Marker::Token(txt) => Some(txt),
''')],
  demo='fmt', needs='a string over two lines that end with CR and LF', breaks='the string is changed',
  files=f(M + '  Real x\n    "a\r\nb";' + E)),

dict(id='within-repeated', property='C06',
  edits=[(PARSE, '''    if p.consume(ModelicaToken::Within) {
        if !p.check''', '''    while p.consume(ModelicaToken::Within) {
        if !p.check''')],
  demo='reject', needs='two within clauses', breaks='they are accepted',
  files={'in.mo': 'within A;\nwithin B;\nmodel C\n\nend C;\n'}),

dict(id='tab-stops', property='C08',
  edits=[(LEX, '                self.current.col += 1;\n', '''                self.current.col += 1;
                if c == '\\t' {
                    // Tabulators move to the next multiple of 4
                    self.current.col = (self.current.col + 2) / 4 * 4 + 1;
                }
''')],
  demo='''printf 'model A\n\tReal x,;\nend A;\n' > a.mo
timeout 20 "$mofmt" a.mo | grep -q '^a.mo:2:9: '
''', needs='a tabulator before the erroneous token', breaks='the column is not the one of the character'),

dict(id='parentheses-tried-twice', property='C04',
  edits=[(PARSE, '''            output_expression_list(p);
            p.expect(ModelicaToken::RParen);
            if p.check(ModelicaToken::LBracket) {
                array_subscripts(p);
            }
''', '''            let (pos, events, errors) = (p.pos, p.events.len(), p.errors.len());
            output_expression_list(p);
            if p.check(ModelicaToken::RParen) && p.nth(1) == ModelicaToken::LBracket {
                // An indexed result, there can be only one
                p.pos = pos;
                p.events.truncate(events);
                p.errors.truncate(errors);
                let mark = p.enter();
                if !p.check(ModelicaToken::RParen) && !p.check(ModelicaToken::Comma) {
                    expression(p);
                }
                while p.consume(ModelicaToken::Comma) && !p.eof() {
                    if !p.check_any(&[ModelicaToken::RParen, ModelicaToken::Comma]) {
                        expression(p);
                    }
                }
                p.exit(mark, SyntaxKind::OutputExpressionList);
            }
            p.expect(ModelicaToken::RParen);
            if p.check(ModelicaToken::LBracket) {
                array_subscripts(p);
            }
''')],
  demo='''printf 'model A\n\nequation\n\n  x = %sy%s;\n\nend A;\n' "$(printf '(%.0s' $(seq 40))" "$(printf ')[1]%.0s' $(seq 40))" > a.mo
timeout 20 "$mofmt" a.mo
''', needs='some thirty nested parentheses that are indexed', breaks='the time doubles with each of them'),

dict(id='der-two-variables', property='C05',
  edits=[(PARSE, '''    p.expect(ModelicaToken::Comma);
    p.expect(ModelicaToken::Identifier);
    while p.consume(ModelicaToken::Comma) && !p.eof() {
        p.expect(ModelicaToken::Identifier);
    }
    p.expect(ModelicaToken::RParen);
''', '''    p.expect(ModelicaToken::Comma);
    p.expect(ModelicaToken::Identifier);
    if p.consume(ModelicaToken::Comma) {
        p.expect(ModelicaToken::Identifier);
    }
    p.expect(ModelicaToken::RParen);
''')],
  demo='fmt', needs='a derivative with respect to three variables', breaks='it is rejected',
  files=f('function f = der(g, x, y, z);\n')),

dict(id='unicode-space', property='C07',
  edits=[(LEX, '                    if c.is_ascii_whitespace() {\n                        return', '                    if c.is_whitespace() {\n                        return')],
  demo='reject', needs='a no-break space between two tokens', breaks='it is taken for white space',
  files={'in.mo': 'model A\n\n  Real\u00a0x;\n\nend A;\n'}),

dict(id='while-body-blank', property='C10',
  edits=[(FMT, '''                if tok.kind == ModelicaToken::While && f.prev_tok == ModelicaToken::End {
                    f.markers.push(Marker::Space);
                } else if tok.kind == ModelicaToken::End {
                    f.handle_break(&tok, Blank::Legal);
                }
''', '''                if tok.kind == ModelicaToken::While && f.prev_tok == ModelicaToken::End {
                    f.markers.push(Marker::Space);
                } else if tok.kind == ModelicaToken::End {
                    f.handle_break(&tok, Blank::Illegal);
                }
''')],
  demo='fmt', needs='a blank line before `end while`', breaks='it is removed',
  files=f('function f\n\nalgorithm\n\n  while a loop\n    x := y;\n\n  end while;\n\nend f;\n')),

dict(id='condition-parenthesis-glued', property='C11',
  edits=[(FMT, '''fn condition_attribute(f: &mut Formatter, tree: Tree) {
    for child in tree.children {
        match child {
            Child::Tree(tree) => _ = expression(f, tree, false, false),
            Child::Token(tok) => {
                f.handle_token(tok);
                f.markers.push(Marker::Space);
            }
''', '''fn condition_attribute(f: &mut Formatter, tree: Tree) {
    let glued = tree.end().kind == ModelicaToken::RCurly;
    for child in tree.children {
        match child {
            Child::Tree(tree) => _ = expression(f, tree, false, false),
            Child::Token(tok) => {
                f.handle_token(tok);
                if !glued {
                    f.markers.push(Marker::Space);
                }
            }
''')],
  demo='fmt', needs='a condition that ends with a curly bracket', breaks='there is no space after `if`',
  files=f(M + '  B b if {x};' + E)),

dict(id='constraint-behind-annotation', property='C13',
  edits=[(FMT, '''                SyntaxKind::ConstrainingClause => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Illegal);
                    constraining_clause(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                SyntaxKind::Description => {''', '''                SyntaxKind::ConstrainingClause => {
                    f.markers.push(Marker::Indent);
                    let inline = f.prev_tok == ModelicaToken::String;
                    f.break_or_space(!inline, tree.start());
                    constraining_clause(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                SyntaxKind::Description => {''')],
  demo='fmt', needs='a constraint after a description string', breaks='it stays on the line of the string',
  files=f(M + '  replaceable B b\n    "d"\n    constrainedby C;' + E)),

dict(id='product-wrapped-by-operand', property='C15',
  edits=[(FMT, '''            if tree.kind == SyntaxKind::MulOperator {
                if let Some(Child::Tree(next_tree)) = children.peek() {
                    let is_multiline = next_tree.start().start.line > f.prev_line;''', '''            if tree.kind == SyntaxKind::MulOperator {
                if let Some(Child::Tree(next_tree)) = children.peek() {
                    let is_multiline = next_tree.end().start.line > f.prev_line && next_tree.end().kind != ModelicaToken::RParen
                        || next_tree.start().start.line > f.prev_line;''')],
  demo='fmt', needs='a factor that runs over several lines', breaks='the line is wrapped before the factor, too',
  files=f(M + 'equation\n\n  x = a * {\n    b,\n    c};' + E)),

dict(id='array-argument-blank', property='C16',
  edits=[(FMT, '''                SyntaxKind::ArrayArgumentsNonFirst => {
                    f.break_or_space(is_multiline, tree.start());
                    array_arguments_non_first(f, tree, is_multiline);
                }
                SyntaxKind::ForIndices => for_indices(f, tree),''', '''                SyntaxKind::ArrayArgumentsNonFirst => {
                    f.markers.push(Marker::Space);
                    if is_multiline {
                        if f.comments.peek().is_some_and(|c| c.idx < tree.start().idx) {
                            f.remove_space();
                        }
                        if tree.start().kind != ModelicaToken::LBracket {
                            f.remove_space();
                        }
                        f.handle_break(tree.start(), Blank::Illegal);
                    }
                    array_arguments_non_first(f, tree, is_multiline);
                }
                SyntaxKind::ForIndices => for_indices(f, tree),''')],
  demo='fmt', needs='a wrapped array of matrices', breaks='a blank is left at the end of the line before the second one',
  files=f(M + '  parameter Real x[2, 1] = {\n    [1],\n    [2]};' + E)),

dict(id='same-file-once', property='C18',
  edits=[(MAIN, '''    files.iter().for_each(|p| {
        let contents = read_file(p);
''', '''    files.sort();
    files.dedup_by(|a, b| a.file_stem() == b.file_stem() && a.parent() == b.parent());
    files.iter().for_each(|p| {
        let contents = read_file(p);
''')],
  demo='''printf 'model A end A;' > a.mo
echo x > a.m
timeout 20 "$mofmt" a.m a.mo
printf 'model A\n\nend A;\n' | cmp - a.mo
''', needs='two paths that differ in their extensions only', breaks='only one of them is processed'),

dict(id='entry-arguments-non-first', property='C23',
  edits=[(PARSE, 'SyntaxKind::FunctionArgumentsNonFirst => function_arguments_non_first(self)', 'SyntaxKind::FunctionArgumentsNonFirst => array_arguments_non_first(self)')],
  demo='lib', needs='that production as entry, with a named argument', breaks='the argument is rejected',
  files={'main.rs': LIBMAIN + '''    let p = parse("x", "a, b = 1", SyntaxKind::FunctionArgumentsNonFirst);
    assert!(p.errors.is_empty());
    assert_eq!(pretty_print(p.tokens, p.comments, p.events), "a, b = 1");
}
'''}),

dict(id='comment-after-long-comment', property='C24',
  edits=[(FMT, '            line = comment.end.line;\n', '            line = if comment.text.starts_with("/**") { comment.start.line } else { comment.end.line };\n')],
  demo='fmt', needs='a comment on the line on which a comment of several lines that starts with two stars ends', breaks='it starts a new line',
  files=f(M + '  Real x; /** a\n*/ // b' + E)),

dict(id='description-in-constraint', property='C22',
  edits=[(PARSE, '''            if p.check(ModelicaToken::Constrainedby) {
                constraining_clause(p);
                description(p);
            }
''', '''            if p.check(ModelicaToken::Constrainedby) {
                constraining_clause(p);
                description_string(p);
                let mark = p.enter();
                if p.check(ModelicaToken::Annotation) {
                    annotation_clause(p);
                }
                p.exit(mark, SyntaxKind::Description);
            }
'''), (FMT, '''                SyntaxKind::Description => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Illegal);
                    description(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                f.handle_token(tok);
                f.markers.push(Marker::Space);
            }
        }
    }
}

fn import_clause''', '''                SyntaxKind::Description => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Illegal);
                    description(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                SyntaxKind::DescriptionString => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Illegal);
                    description_string(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                f.handle_token(tok);
                f.markers.push(Marker::Space);
            }
        }
    }
}

fn import_clause''')],
  demo='lib', flags='--cfg mofmt_verif', needs='a description after a constraint, and a look at the tree',
  breaks='the string is not part of the description',
  files={'main.rs': '''use mofmt::{build_tree, parse, Child, SyntaxKind};
fn main() {
    let p = parse("x", "replaceable B b constrainedby C \\"d\\"", SyntaxKind::Element);
    assert!(p.errors.is_empty());
    let tree = build_tree(p.tokens, p.events);
    match tree.children.last().unwrap() {
        Child::Tree(t) => assert!(t.kind == SyntaxKind::Description),
        _ => panic!(),
    }
}
'''}),
]
