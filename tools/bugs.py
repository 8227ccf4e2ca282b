# Planted bugs: each breaks a property, compiles and passes the repository's tests.
FMT, PARSE, LEX, MAIN, TREE, PRINT = ('src/formatter/formatting.rs', 'src/parser/parsing.rs',
    'src/parser/lexing.rs', 'src/main.rs', 'src/parser/tree.rs', 'src/formatter/printing.rs')
LIBMAIN = '''use mofmt::{parse, pretty_print, SyntaxKind};
fn main() {
'''
BUGS = [
dict(id='base-prefix-glued', property='C01',
  edits=[(FMT, '''                    let is_empty = tree.len() == 0;
                    base_prefix(f, tree);
                    if !is_empty {
                        f.markers.push(Marker::Space);
                    }''', '''                    let is_empty = tree.len() == 0;
                    base_prefix(f, tree);
                    if !is_empty && f.prev_tok != ModelicaToken::Output {
                        f.markers.push(Marker::Space);
                    }''')],
  demo='fmt', needs='a short class with an `output` base prefix',
  breaks='`output Real` is printed as the single identifier `outputReal`',
  files={'in.mo': 'connector C = output Real;\n', 'out.mo': 'connector C = output Real;\n'}),

dict(id='repeated-comment-dropped', property='C02',
  edits=[(LEX, '            self.comments.push(token);\n', '''            // Separator lines are often repeated, there is no need to keep each of them
            let repeated = self
                .comments
                .last()
                .is_some_and(|c| c.text == token.text && c.idx + 1 == token.idx);
            if !repeated {
                self.comments.push(token);
            }
''')],
  demo='fmt', needs='two neighbouring comments with the same text',
  breaks='the second of two identical neighbouring comments disappears',
  files={'in.mo': '// --\n// --\nmodel A\n\nend A;\n', 'out.mo': '// --\n// --\nmodel A\n\nend A;\n'}),

dict(id='der-class-wrapped-by-description', property='C03',
  edits=[(FMT, '''fn der_class_specifier(f: &mut Formatter, tree: Tree) {
    let mut is_multiline = false;
    let mut children = tree.children.iter();
    while let Some(child) = children.next() {
        if let Child::Token(token) = child {
            if token.kind == ModelicaToken::LParen {
                for child in children.by_ref() {
                    if let Child::Token(tok) = child {
                        if tok.kind == ModelicaToken::RParen {
                            is_multiline = tok.start.line > token.start.line;
                        }
                    }
                }
            }
        }
    }
''', '''fn der_class_specifier(f: &mut Formatter, tree: Tree) {
    let is_multiline = tree.is_multiline();
''')],
  demo='idem', needs='a der class specifier with a description',
  breaks='the description starts a new line, hence the next run wraps the argument list',
  files={'in.mo': 'function g = der(f, x, y) "descr";\n'}),

dict(id='escape-at-end', property='C04',
  edits=[(LEX, '''                // Skip the escaped character
                '\\\\' => _ = self.next(),
''', '''                // Skip the escaped character
                '\\\\' => _ = self.next().unwrap(),
''')],
  demo='''printf 'model A "abc\\\\' > a.mo
timeout 20 "$mofmt" a.mo > out 2>&1
status=$?
cat out
[ $status -eq 1 ] && grep -q '^a.mo:1:9: ' out
''', needs='a file that ends inside a string, directly after a backslash',
  breaks='the formatter panics instead of reporting an unclosed string'),

dict(id='few-lifes', property='C05',
  edits=[(PARSE, 'lifes: Cell::new(100),', 'lifes: Cell::new(MAX_LOOKAHEADS),'),
         (PARSE, 'self.lifes.set(100);', 'self.lifes.set(MAX_LOOKAHEADS);'),
         (PARSE, '// Useful constants used in the parsing process\n', '''// Useful constants used in the parsing process

/// Number of lookaheads allowed without consuming a token
const MAX_LOOKAHEADS: u32 = 20;
''')],
  demo='fmt', needs='a construct after which many optional continuations are tried before the next token',
  breaks='a valid program is rejected because the parser thinks it is stuck',
  files={'in.mo': 'model extends A B c; end A;\n', 'out.mo': 'model extends A\n\n  B c;\n\nend A;\n'}),

dict(id='trailing-comma-enum', property='C06',
  edits=[(PARSE, '''    while p.consume(ModelicaToken::Comma) && !p.eof() {
        enumeration_literal(p);
    }''', '''    while p.consume(ModelicaToken::Comma) && !p.check(ModelicaToken::RParen) && !p.eof() {
        enumeration_literal(p);
    }'''), (FMT, '''            Child::Tree(t) => enumeration_literal(f, t),
            Child::Token(tok) => {
                f.handle_token(tok);
                if let Child::Tree(next_tree) = children.peek().unwrap() {''', '''            Child::Tree(t) => enumeration_literal(f, t),
            Child::Token(tok) => {
                f.handle_token(tok);
                if let Some(Child::Tree(next_tree)) = children.peek() {''')],
  demo='reject', needs='a comma after the last literal of an enumeration',
  breaks='an invalid enumeration is accepted and reformatted',
  files={'in.mo': 'type E = enumeration(a, b,);\n'}),

dict(id='qident-tilde', property='C07',
  edits=[(LEX, '''const ALLOWED: &str = "!#$%&()*+,-./:;<>=?@[]^{}|~ \\"";''', '''const ALLOWED: &str = "!#$%&()*+,-./:;<>=?@[]^{}| \\"";''')],
  demo='fmt', needs='a quoted identifier that contains a tilde',
  breaks='a valid quoted identifier is a lexical error',
  files={'in.mo': "model 'a~b'\n\nend 'a~b';\n", 'out.mo': "model 'a~b'\n\nend 'a~b';\n"}),

dict(id='column-in-bytes', property='C08',
  edits=[(LEX, 'self.current.col += 1;', 'self.current.col += c.len_utf8();')],
  demo='''printf 'model A "\\303\\244" Real end A;\\n' > a.mo
timeout 20 "$mofmt" a.mo > out 2>&1
cat out
head -2 out | grep -q '^a.mo:1:18: '
''', needs='an error on a line with a character outside ASCII before it',
  breaks='the reported column counts bytes instead of characters'),

dict(id='long-line-wrapped', property='C09',
  edits=[(TREE, 'first.start.line < last.end.line', 'first.start.line < last.end.line || last.end.col > 1000')],
  demo='''printf 'model A\\n\\n  Real x = f(1, 2);\\n\\nend A;\\n' > a.mo
{ printf 'model A\\n\\n  Real x = f(1, '; head -c 1200 /dev/zero | tr '\\0' ' '; printf '2);\\n\\nend A;\\n'; } > b.mo
timeout 20 "$mofmt" a.mo && timeout 20 "$mofmt" b.mo && cmp a.mo b.mo
''', needs='a very long input line',
  breaks='lists are wrapped depending on the columns of their tokens in the input'),

dict(id='external-then-class-annotation', property='C10',
  edits=[(FMT, '''                            .contains(&prev_rule)
                                && f.prev_tok != ModelicaToken::Semicolon);''', '''                            .contains(&prev_rule));''')],
  demo='fmt', needs='a class annotation that follows an external clause with a language or call, but without annotation',
  breaks='no blank line before the class annotation, and one level too much',
  files={'in.mo': 'function f\n\n  external "C";\n  annotation(Inline = true);\n\nend f;\n',
         'out.mo': 'function f\n\nexternal "C";\n\n  annotation (Inline = true);\n\nend f;\n'}),

dict(id='for-index-indent-leak', property='C12',
  edits=[(FMT, '''            Child::Tree(tree) => _ = expression(f, tree, false, false),
            Child::Token(tok) => {
                let kind = tok.kind;
                if kind == ModelicaToken::In {''', '''            Child::Tree(tree) => _ = expression(f, tree, false, true),
            Child::Token(tok) => {
                let kind = tok.kind;
                if kind == ModelicaToken::In {''')],
  demo='fmt', needs='a wrapped expression as the range of a loop index',
  breaks='everything after it is indented one level too deep',
  files={'in.mo': 'model A\n\nequation\n\n  for i in 1 : n\n    + 1 loop\n    a = b;\n  end for;\n\nend A;\n',
         'out.mo': 'model A\n\nequation\n\n  for i in 1 : n\n    + 1 loop\n    a = b;\n  end for;\n\nend A;\n'}),

dict(id='literal-annotation-inline', property='C13',
  edits=[(FMT, '''            Child::Tree(tree) => {
                f.markers.push(Marker::Indent);
                f.handle_break(tree.start(), Blank::Illegal);
                description(f, tree);
                f.markers.push(Marker::Dedent);
            }
            Child::Token(tok) => f.handle_token(tok),''', '''            Child::Tree(tree) => {
                f.markers.push(Marker::Indent);
                let is_annotation = tree.start().kind == ModelicaToken::Annotation;
                f.break_or_space(!is_annotation, tree.start());
                description(f, tree);
                f.markers.push(Marker::Dedent);
            }
            Child::Token(tok) => f.handle_token(tok),''')],
  demo='fmt', needs='an enumeration literal with an annotation but no description string',
  breaks='the annotation stays on the line of the literal',
  files={'in.mo': 'type E = enumeration(a annotation(X = 1));\n',
         'out.mo': 'type E = enumeration(\n  a\n    annotation (X = 1));\n'}),

dict(id='power-wrap-operator-line', property='C15',
  edits=[(FMT, '''            Child::Tree(tree) => wrapped = primary(f, tree, wrapped),
            Child::Token(tok) => {
                if let Some(Child::Tree(next_tree)) = children.peek() {
                    let is_multiline = next_tree.start().start.line > f.prev_line;''', '''            Child::Tree(tree) => wrapped = primary(f, tree, wrapped),
            Child::Token(tok) => {
                if children.peek().is_some() {
                    let is_multiline = tok.start.line > f.prev_line;''')],
  demo='fmt', needs='a power whose exponent, but not the operator, is on a new line',
  breaks='the manual wrap is lost',
  files={'in.mo': 'model A\n\n  Real x = a ^\n    b;\n\nend A;\n', 'out.mo': 'model A\n\n  Real x = a\n    ^ b;\n\nend A;\n'}),

dict(id='named-argument-trailing-space', property='C16',
  edits=[(FMT, '''            let is_multiline_if = tree.is_multiline() && tree.start().kind == ModelicaToken::If;
            if is_multiline_if {
                f.markers.push(Marker::Indent);
            }
            f.break_or_space(is_multiline_if, tree.start());
            function_argument(f, tree);''', '''            let is_multiline_if = tree.is_multiline() && tree.start().kind == ModelicaToken::If;
            f.markers.push(Marker::Space);
            if is_multiline_if {
                f.markers.push(Marker::Indent);
                f.handle_break(tree.start(), Blank::Illegal);
            }
            function_argument(f, tree);''')],
  demo='fmt', needs='a named argument whose value is a wrapped if-expression',
  breaks='a trailing space after the equal sign',
  files={'in.mo': 'model A\n\n  Real x = f(\n    a = if b\n      then c else d);\n\nend A;\n',
         'out.mo': 'model A\n\n  Real x = f(\n    a =\n      if b then\n        c\n      else\n        d);\n\nend A;\n'}),

dict(id='check-ignores-final-newlines', property='C17',
  edits=[(MAIN, 'if output != source {', 'if output.trim_end() != source.trim_end() {')],
  demo='''printf 'model A\\n\\nend A;\\n\\n' > a.mo
timeout 20 "$mofmt" --check a.mo && { echo "the check passed"; exit 1; }
timeout 20 "$mofmt" a.mo && [ "$(wc -c < a.mo)" -eq 16 ]
''', needs='a file that is formatted except for its trailing line ends',
  breaks='check mode passes although formatting would change the file'),

dict(id='exit-status-counts', property='C18',
  edits=[(MAIN, '''                eprintln!("{}: error: {}", name, e);
                code = 1;
            }
        }
    });''', '''                eprintln!("{}: error: {}", name, e);
                code += 1;
            }
        }
    });''')],
  demo='''timeout 20 "$mofmt" $(seq -f 'missing%g.mo' 256) 2> err
status=$?
[ "$(wc -l < err)" -eq 256 ] && [ $status -eq 1 ]
''', needs='exactly 256 unreadable files in one run',
  breaks='the exit status is the number of problems, which the system cuts to 8 bits: 0'),

dict(id='stop-after-bad-file', property='C18',
  edits=[(MAIN, '    files.iter().for_each(|p| {\n', '    for p in files.iter() {\n'),
         (MAIN, '''                eprintln!("{}: error: {}", name, e);
                code = 1;
            }
        }
    });''', '''                eprintln!("{}: error: {}", name, e);
                code = 1;
                if check {
                    break;
                }
            }
        }
    }''')],
  demo='''printf 'model A end A;' > b.mo
timeout 20 "$mofmt" --check missing.mo b.mo > out 2> err
status=$?
cat out err
[ $status -eq 1 ] && grep -q 'b.mo: check failed' out && grep -q missing.mo err
''', needs='check mode and an unreadable file before another one',
  breaks='the files after an unreadable file are not checked and not reported'),

dict(id='hidden-mo-file', property='C19',
  edits=[(MAIN, '''    if let Some(suffix) = f.extension() {
        return suffix == "mo";
    }
    false''', '''    f.file_name()
        .is_some_and(|n| n.to_string_lossy().ends_with(".mo"))''')],
  demo='''mkdir d
printf 'model A end A;' > d/.mo
cp d/.mo before
timeout 20 "$mofmt" d && cmp d/.mo before
''', needs='a hidden file named `.mo`',
  breaks='a file without extension is formatted'),

dict(id='mo-directory-skipped', property='C19',
  edits=[(MAIN, '''            if p.is_dir() || e.file_type().is_ok_and(|t| t.is_dir()) {
                get_files_from_dir(p, code)
            } else if is_modelica(p.as_path()) {
                vec![p]
            } else {
                Vec::new()
            }''', '''            if is_modelica(p.as_path()) {
                vec![p]
            } else if p.is_dir() || e.file_type().is_ok_and(|t| t.is_dir()) {
                get_files_from_dir(p, code)
            } else {
                Vec::new()
            }''')],
  demo='''mkdir -p d/x.mo
printf 'model A end A;' > d/x.mo/a.mo
timeout 20 "$mofmt" d && [ "$(wc -l < d/x.mo/a.mo)" -eq 3 ]
''', needs='a directory whose name ends in .mo below the given directory',
  breaks='the directory is taken for a file and not searched'),

dict(id='single-read', property='C20',
  edits=[(MAIN, '''    match fs::read_to_string(from) {
        Ok(s) => Ok(s),
        Err(e) => Err(e.to_string()),
    }''', '''    let mut bytes = Vec::new();
    let mut chunk = [0; 1 << 16];
    let mut file = fs::File::open(from).map_err(|e| e.to_string())?;
    loop {
        match io::Read::read(&mut file, &mut chunk) {
            Ok(n) => {
                bytes.extend_from_slice(&chunk[..n]);
                if n < chunk.len() {
                    break;
                }
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => (),
            Err(e) => return Err(e.to_string()),
        }
    }
    String::from_utf8(bytes).map_err(|e| e.to_string())''')],
  demo='''cat > short.c <<'END'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <unistd.h>
ssize_t read(int fd, void *buf, size_t n) {
  ssize_t (*real)(int, void *, size_t) = dlsym(RTLD_NEXT, "read");
  return real(fd, buf, fd > 2 && n > 16 ? 16 : n);
}
END
gcc -shared -fPIC -o short.so short.c -ldl || exit 3
printf 'model A\\n\\nend A;\\nmodel B end B;' > a.mo
LD_PRELOAD=$PWD/short.so timeout 20 "$mofmt" a.mo
printf 'model A\\n\\nend A;\\nmodel B\\n\\nend B;\\n' | cmp - a.mo
''', needs='a read that returns fewer bytes than asked for',
  breaks='the rest of the file is dropped and overwritten'),

dict(id='check-anywhere', property='C21',
  edits=[(MAIN, "format_files(&args[1..], false);", 'format_files(&args[1..], args[1..].iter().any(|a| a == "--check"));')],
  demo='''printf 'model A end A;' > a.mo
timeout 20 "$mofmt" a.mo --check > out 2> err && { echo "exit status 0"; exit 1; }
grep -q -e --check err && [ "$(wc -l < a.mo)" -eq 3 ]
''', needs='`--check` after a path',
  breaks='an option that is not the first argument is obeyed, and the paths before it are not formatted'),

dict(id='tree-colon-subscript', property='C22',
  edits=[(PARSE, '''    let mark = p.enter();
    if !p.consume(ModelicaToken::Colon) {
        expression(p);
    }
    p.exit(mark, SyntaxKind::Subscript);''', '''    if p.check(ModelicaToken::Colon) {
        // There is nothing to be put in the node
        let mark = p.enter();
        p.advance();
        p.exit(mark, SyntaxKind::SimpleExpression);
        return;
    }
    let mark = p.enter();
    expression(p);
    p.exit(mark, SyntaxKind::Subscript);''')],
  demo='lib', flags='--cfg mofmt_verif', needs='a colon as a subscript, and a look at the tree',
  breaks='a colon subscript has the kind of a simple expression in the tree',
  files={'main.rs': '''use mofmt::{build_tree, parse, Child, SyntaxKind};
fn main() {
    let p = parse("x", "[:, 1]", SyntaxKind::ArraySubscripts);
    assert!(p.errors.is_empty());
    let tree = build_tree(p.tokens, p.events);
    for child in &tree.children {
        if let Child::Tree(t) = child {
            assert!(t.kind == SyntaxKind::Subscript);
        }
    }
}
'''}),

dict(id='entry-for-indices', property='C23',
  edits=[(PARSE, 'SyntaxKind::ForIndices => for_indices(self),', 'SyntaxKind::ForIndices => for_index(self),')],
  demo='lib', needs='the production of loop indices as entry and more than one index',
  breaks='the list of indices is not parsed to its end, and building the tree panics',
  files={'main.rs': LIBMAIN + '''    let p = parse("x", "i in 1:2,j in 3:4", SyntaxKind::ForIndices);
    assert!(p.errors.is_empty());
    assert_eq!(pretty_print(p.tokens, p.comments, p.events), "i in 1 : 2, j in 3 : 4");
}
'''}),

dict(id='string-end-line', property='C24',
  edits=[(FMT, 'self.prev_line = tok.end.line;', 'self.prev_line = tok.start.line;')],
  demo='fmt', needs='a comment on the line on which a string of several lines ends',
  breaks='the comment is moved to a line of its own',
  files={'in.mo': 'model A\n  "multi\nline" // note\n\nend A;\n', 'out.mo': 'model A\n  "multi\nline" // note\n\nend A;\n'}),

dict(id='elementwise-sign-spaced', property='C11',
  edits=[(FMT, """                add_operator(f, tree);
                if idx > 0 {
                    f.markers.push(Marker::Space);
                }""", """                // Elementwise operators are always surrounded by spaces
                let is_elementwise = tree.start().kind == ModelicaToken::DotMinus;
                add_operator(f, tree);
                if idx > 0 || is_elementwise {
                    f.markers.push(Marker::Space);
                }""")],
  demo='fmt', needs='an elementwise minus used as a sign',
  breaks='a space between the sign and its operand',
  files={'in.mo': 'model A\n\n  Real x = .-b;\n\nend A;\n', 'out.mo': 'model A\n\n  Real x = .-b;\n\nend A;\n'}),

dict(id='single-subscript-not-wrapped', property='C14',
  edits=[(FMT, """    f.markers.push(Marker::Indent);
    let is_multiline = tree.is_multiline();
    let mut children = tree.children.into_iter().peekable();
    while let Some(child) = children.next() {
        match child {
            Child::Tree(t) => subscript(f, t),""", """    f.markers.push(Marker::Indent);
    let is_multiline = tree.is_multiline() && tree.len() != 3;
    let mut children = tree.children.into_iter().peekable();
    while let Some(child) = children.next() {
        match child {
            Child::Tree(t) => subscript(f, t),""")],
  demo='fmt', needs='a single subscript written on a line of its own',
  breaks='the wrap of the subscript is lost',
  files={'in.mo': 'model A\n\n  Real x[\n    n];\n\nend A;\n', 'out.mo': 'model A\n\n  Real x[\n    n];\n\nend A;\n'}),

dict(id='condition-indent-leak', property='C12',
  edits=[(FMT, """                        f.markers.push(Marker::Space);
                    }
                    expression(f, tree, false, false);
                    if conditional {""", """                        f.markers.push(Marker::Space);
                    }
                    expression(f, tree, false, !conditional);
                    if conditional {""")],
  demo='fmt', needs='an if-expression with a wrapped condition',
  breaks='everything after the condition is indented one level too deep',
  files={'in.mo': 'model A\n\n  Real x =\n    if a\n      and b then\n      c\n    else\n      d;\n  Real y;\n\nend A;\n',
         'out.mo': 'model A\n\n  Real x =\n    if a\n      and b then\n      c\n    else\n      d;\n  Real y;\n\nend A;\n'}),

dict(id='elsewhen-blank-lost', property='C10',
  edits=[(FMT, """fn when_statement(f: &mut Formatter, tree: Tree) {
    for child in tree.children {
        match child {
            Child::Tree(tree) => match tree.kind {
                SyntaxKind::Expression => {
                    f.markers.push(Marker::Space);
                    expression(f, tree, false, false);
                    f.markers.push(Marker::Space);
                }
                SyntaxKind::Statement => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Legal);
                    statement(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                if tok.kind == ModelicaToken::When && f.prev_tok == ModelicaToken::End {
                    f.markers.push(Marker::Space);
                } else if tok.kind == ModelicaToken::ElseWhen || tok.kind == ModelicaToken::End {
                    f.handle_break(&tok, Blank::Legal);""", """fn when_statement(f: &mut Formatter, tree: Tree) {
    for child in tree.children {
        match child {
            Child::Tree(tree) => match tree.kind {
                SyntaxKind::Expression => {
                    f.markers.push(Marker::Space);
                    expression(f, tree, false, false);
                    f.markers.push(Marker::Space);
                }
                SyntaxKind::Statement => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Legal);
                    statement(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                if tok.kind == ModelicaToken::When && f.prev_tok == ModelicaToken::End {
                    f.markers.push(Marker::Space);
                } else if tok.kind == ModelicaToken::ElseWhen {
                    f.handle_break(&tok, Blank::Illegal);
                } else if tok.kind == ModelicaToken::End {
                    f.handle_break(&tok, Blank::Legal);""")],
  demo='fmt', needs='a blank line before `elsewhen` of a statement',
  breaks='the blank line is removed',
  files={'in.mo': 'model A\n\nalgorithm\n\n  when a then\n    b();\n\n  elsewhen c then\n    d();\n  end when;\n\nend A;\n',
         'out.mo': 'model A\n\nalgorithm\n\n  when a then\n    b();\n\n  elsewhen c then\n    d();\n  end when;\n\nend A;\n'}),

dict(id='extends-annotation-inline', property='C13',
  edits=[(FMT, """                SyntaxKind::AnnotationClause => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Illegal);
                    annotation_clause(f, tree);""", """                SyntaxKind::AnnotationClause => {
                    f.markers.push(Marker::Indent);
                    f.break_or_space(
                        f.prev_tok == ModelicaToken::RParen || tree.is_multiline(),
                        tree.start(),
                    );
                    annotation_clause(f, tree);""")],
  demo='fmt', needs='an extends clause with an annotation but without modification',
  breaks='the annotation stays on the line of the clause',
  files={'in.mo': 'model A\n\n  extends B annotation(X = 1);\n\nend A;\n',
         'out.mo': 'model A\n\n  extends B\n    annotation (X = 1);\n\nend A;\n'}),

dict(id='redeclare-each-final', property='C05',
  edits=[(PARSE, """    p.expect(ModelicaToken::Redeclare);
    p.consume(ModelicaToken::Each);
    p.consume(ModelicaToken::Final);""", """    p.expect(ModelicaToken::Redeclare);
    if !p.consume(ModelicaToken::Each) {
        p.consume(ModelicaToken::Final);
    }""")],
  demo='fmt', needs='a redeclaration with both `each` and `final`',
  breaks='a valid redeclaration is rejected',
  files={'in.mo': 'model A\n\n  B b(redeclare each final C c);\n\nend A;\n', 'out.mo': 'model A\n\n  B b(redeclare each final C c);\n\nend A;\n'}),

dict(id='last-semicolon-optional', property='C06',
  edits=[(PARSE, """        class_definition(p);
        p.expect(ModelicaToken::Semicolon);
    }
    p.exit(mark, SyntaxKind::StoredDefinition);""", """        class_definition(p);
        if !p.eof() {
            p.expect(ModelicaToken::Semicolon);
        }
    }
    p.exit(mark, SyntaxKind::StoredDefinition);""")],
  demo='reject', needs='a file without a semicolon after its last class',
  breaks='an incomplete file is accepted and reformatted',
  files={'in.mo': 'model A end A\n'}),

dict(id='comment-closed-by-star', property='C06',
  edits=[(LEX, """                } else {
                    return self.generate_error(String::from("unclosed block comment"));
                }""", """                } else {
                    return self.generate_token(ModelicaToken::BlockComment);
                }""")],
  demo='reject', needs='an unclosed block comment that ends the file with a star',
  breaks='an unclosed comment is accepted',
  files={'in.mo': 'model A end A; /* abc *'}),

dict(id='error-after-offence', property='C08',
  edits=[(PARSE, """        self.error(msg);
        if self.eof() {
            return;
        }
        let mark = self.enter();
        self.advance();
        self.exit(mark, SyntaxKind::Error);""", """        if self.eof() {
            return self.error(msg);
        }
        let mark = self.enter();
        self.advance();
        self.exit(mark, SyntaxKind::Error);
        self.error(msg);""")],
  demo="""printf 'model A\\nend A;\\nfoo B\\nend B;\\n' > a.mo
timeout 20 "$mofmt" a.mo > out && exit 1
cat out
sed -n 2p out | grep -q '^a.mo:3:1: '
""", needs='a token that is consumed as erroneous',
  breaks='the first error is reported after the offending token'),

dict(id='check-last-verdict', property='C17',
  edits=[(MAIN, """                        if output != source {
                            code = 1;
                            writeln!(lock, "{}: check failed", name).unwrap();""", """                        code = i32::from(output != source);
                        if code != 0 {
                            writeln!(lock, "{}: check failed", name).unwrap();""")],
  demo="""printf 'model A end A;' > a.mo
printf 'model B\\n\\nend B;\\n' > b.mo
timeout 20 "$mofmt" --check a.mo b.mo && { echo "exit status 0"; exit 1; }
timeout 20 "$mofmt" --check b.mo
""", needs='check mode and a formatted file after a file that is not formatted',
  breaks='the exit status tells about the last file only'),

dict(id='lossy-read', property='C18',
  edits=[(MAIN, """    match fs::read_to_string(from) {
        Ok(s) => Ok(s),
        Err(e) => Err(e.to_string()),
    }""", """    match fs::read(from) {
        Ok(s) => Ok(String::from_utf8_lossy(&s).into_owned()),
        Err(e) => Err(e.to_string()),
    }""")],
  demo="""printf 'model A "\\344" end A;' > a.mo
cp a.mo before
timeout 20 "$mofmt" a.mo && { echo "exit status 0"; exit 1; }
cmp a.mo before
""", needs='a file that is not UTF-8 in a string or comment',
  breaks='the file is rewritten with replacement characters'),

dict(id='empty-first-argument', property='C21',
  edits=[(MAIN, "if args.len() < 2 {", 'if args[1..].iter().all(|a| a.is_empty()) || first.trim().is_empty() {')],
  demo='''printf 'model A end A;' > a.mo
timeout 20 "$mofmt" "" a.mo 2> err && { echo "exit status 0"; exit 1; }
[ "$(wc -l < a.mo)" -eq 3 ]
''', needs='an empty first argument before a path',
  breaks='the paths after an empty argument are ignored'),

dict(id='redeclare-prefix-glued', property='C01',
  edits=[(FMT, """                SyntaxKind::TypePrefix => type_prefix(f, tree),
                SyntaxKind::TypeSpecifier => {
                    if children_count > 2 {""", """                SyntaxKind::TypePrefix => type_prefix(f, tree),
                SyntaxKind::TypeSpecifier => {
                    if children_count > 2 && f.prev_tok != ModelicaToken::Stream {""")],
  demo='fmt', needs='a redeclaration that ends its type prefix with `stream`',
  breaks='`stream Real` is printed as the single identifier `streamReal`',
  files={'in.mo': 'model A\n\n  B b(redeclare stream C c);\n\nend A;\n', 'out.mo': 'model A\n\n  B b(redeclare stream C c);\n\nend A;\n'}),

dict(id='entry-type-prefix', property='C23',
  edits=[(FMT, 'SyntaxKind::TypePrefix => type_prefix(&mut f, tree),', 'SyntaxKind::TypePrefix => base_prefix(&mut f, tree),')],
  demo='lib', needs='the production of type prefixes as entry and more than one prefix',
  breaks='the prefixes are glued together',
  files={'main.rs': LIBMAIN + """    let p = parse("x", "flow  input", SyntaxKind::TypePrefix);
    assert!(p.errors.is_empty());
    assert_eq!(pretty_print(p.tokens, p.comments, p.events), "flow input");
}
"""}),
]
