# Second batch of planted bugs, see bugs.py
from bugs import FMT, PARSE, LEX, MAIN, TREE, PRINT, LIBMAIN
M = 'model A\n\n'
E = '\n\nend A;\n'
def f(s): return {'in.mo': s, 'out.mo': s}
BUGS2 = [
dict(id='inner-lines-trimmed', property='C01',
  edits=[(PRINT, '''    formatted.join("")
''', '''    // No line ends with blanks
    formatted
        .join("")
        .split('\\n')
        .map(|line| line.trim_end_matches(' '))
        .collect::<Vec<&str>>()
        .join("\\n")
''')],
  demo='fmt', needs='a string that runs over lines, one of which ends with a blank',
  breaks='the value of the string is changed',
  files=f(M + '  parameter String s = "a \nb";' + E)),

dict(id='doubled-comment-mark', property='C02',
  edits=[(LEX, """        self.next();
        while let Some(c) = self.next() {
            if c == '*' {""", """        self.next();
        if self.source[self.start.pos..].starts_with("/**/") {
            // There is nothing inside
            self.next();
            self.next();
            return self.jump();
        }
        while let Some(c) = self.next() {
            if c == '*' {""")],
  demo='fmt', needs='an empty block comment',
  breaks='empty block comments disappear',
  files=f(M + '  Real x; /**/' + E)),

dict(id='description-wrap-by-operand', property='C03',
  edits=[(FMT, '''    let is_multiline = tree.is_multiline();
    f.markers.push(Marker::Indent);
    for child in tree.children {
        if let Child::Token(tok) = child {
            match tok.kind {
                ModelicaToken::Plus => {''', '''    let is_multiline = tree.children.windows(2).any(|w| match w {
        [Child::Token(a), Child::Token(b)] => {
            a.kind == ModelicaToken::Plus && a.end.line < b.start.line
        }
        _ => false,
    });
    f.markers.push(Marker::Indent);
    for child in tree.children {
        if let Child::Token(tok) = child {
            match tok.kind {
                ModelicaToken::Plus => {''')],
  demo='idem', needs='a description whose wrap is after the plus',
  breaks='the first run moves the wrap before the plus, the second one removes it',
  files={'in.mo': M + '  Real x\n    "a" +\n    "b";' + E}),

dict(id='message-cuts-token', property='C04',
  edits=[(PARSE, '''            self.error(format!("expected {typ:?}, found {:?}", self.nth(0)));''',
   '''            let text = self.tokens.get(self.pos).map_or("", |tok| &tok.text);
            let text = &text[..text.len().min(24)];
            self.error(format!(
                "expected {typ:?}, found {:?} '{text}'",
                self.nth(0)
            ));''')],
  demo='''printf 'model A\\n  Real x "a" "%s";\\nend A;\\n' "$(printf 'x%.0s' $(seq 22))é" > a.mo
cp a.mo before
timeout 20 "$mofmt" a.mo > out
[ $? -eq 1 ] && grep -q 'Syntax errors' out && cmp a.mo before
''', needs='an unexpected string with a multi-byte character across its 24th byte',
  breaks='the message is cut inside of a character: panic'),

dict(id='deep-parentheses', property='C05',
  edits=[(PARSE, '''    /// Parser lifes
    lifes: Cell<u32>,''', '''    /// Parser lifes
    lifes: Cell<u32>,
    /// Number of productions that are not closed
    depth: usize,'''),
    (PARSE, '''            lifes: Cell::new(100),
            stuck''', '''            lifes: Cell::new(100),
            depth: 0,
            stuck'''),
    (PARSE, '''        let mark = self.events.len();
        self.events.push(SyntaxEvent::Enter(SyntaxKind::Error));''', '''        let mark = self.events.len();
        self.depth += 1;
        if self.depth == 1000 {
            self.error(String::from("code is nested too deep"));
        }
        self.events.push(SyntaxEvent::Enter(SyntaxKind::Error));'''),
    (PARSE, '''        self.events[m] = SyntaxEvent::Enter(typ);''', '''        self.depth -= 1;
        self.events[m] = SyntaxEvent::Enter(typ);''')],
  demo='''p() { printf "%.0s$1" $(seq 120); }
{ printf 'model A\\n\\n  Real x = '; p '('; printf 1; p ')'; printf ';\\n\\nend A;\\n'; } > a.mo
cp a.mo before
timeout 20 "$mofmt" a.mo && cmp a.mo before
''', needs='more than 90 nested parentheses',
  breaks='a valid, deeply nested expression is rejected'),

dict(id='elseif-after-else', property='C06',
  edits=[(PARSE, '''    if p.consume(ModelicaToken::Else) {
        while !p.check(ModelicaToken::End) && !p.eof() {
            statement(p);
            p.expect(ModelicaToken::Semicolon);
        }
    }''', '''    while p.consume(ModelicaToken::Else) {
        while !p.check_any(&[ModelicaToken::Else, ModelicaToken::End]) && !p.eof() {
            statement(p);
            p.expect(ModelicaToken::Semicolon);
        }
    }''')],
  demo='reject', needs='an if-statement with two else branches',
  breaks='the second `else` is accepted',
  files={'in.mo': 'function A algorithm if b then else x := 1; else x := 2; end if; end A;'}),

dict(id='keyword-after-dot', property='C07',
  edits=[(LEX, '''        let word: &str = &self.source[self.start.pos..self.current.pos];
        match word {''', '''        let word: &str = &self.source[self.start.pos..self.current.pos];
        if self.tokens.last().is_some_and(|t| t.kind == ModelicaToken::Dot) {
            // Part of a qualified name
            return self.generate_token(ModelicaToken::Identifier);
        }
        match word {''')],
  demo='reject', needs='a keyword after a dot',
  breaks='a keyword is taken for an identifier, hence `a.end` is accepted',
  files={'in.mo': 'model A\n\n  B b = c.end;\n\nend A;\n'}),

dict(id='column-after-wide-comment', property='C08',
  edits=[(LEX, '''                    if c == '/' {
                        self.next();
                        return''', '''                    if c == '/' {
                        if self.start.line != self.current.line {
                            self.current.col = 1;
                        }
                        self.next();
                        return''')],
  demo='''printf 'model A\\n/* a\\n   b */ foo bar baz\\nend A;\\n' > a.mo
timeout 20 "$mofmt" a.mo > out && exit 1
cat out
sed -n 2p out | grep -q '^a.mo:3:17: '
''', needs='an error in the last line of a comment that runs over lines',
  breaks='the reported column is too small'),

dict(id='comment-gap-kept', property='C09',
  edits=[(LEX, '''    fn lex_linecomment(&mut self) {
''', '''    fn lex_linecomment(&mut self) {
        // Comments aligned with a tab keep their distance
        if self.start.pos > 1 && self.source[..self.start.pos].ends_with(" \\t") {
            self.start.pos -= 2;
        }
''')],
  demo='''printf 'model A\\n\\n  Real x; \\t// c\\n\\nend A;\\n' > a.mo
timeout 20 "$mofmt" a.mo || exit 1
printf 'model A\\n\\n  Real x; // c\\n\\nend A;\\n' | cmp a.mo -
''', needs='a blank and a tab before a line comment',
  breaks='the white space before the comment is kept'),

dict(id='blank-after-long-comment', property='C10',
  edits=[(LEX, '''        let token = Token {
            idx: self.count,
            text: String::from(&self.source[start.pos..end.pos]),
            kind,
            start,
            end,
        };''', '''        let text = String::from(&self.source[start.pos..end.pos]);
        let end = Position {
            line: start.line + text.matches('\\n').count().min(8),
            ..end
        };
        let token = Token {
            idx: self.count,
            text,
            kind,
            start,
            end,
        };''')],
  demo='fmt', needs='a comment of more than nine lines',
  breaks='a blank line is put after it',
  files=f(M + '  /*' + '\n'*10 + '*/\n  Real x;' + E)),

dict(id='not-parenthesis', property='C11',
  edits=[(FMT, '''fn logical_factor(f: &mut Formatter, tree: Tree, mut wrapped: bool) -> bool {
    for child in tree.children {
        match child {
            Child::Tree(tree) => wrapped = relation(f, tree, wrapped),
            Child::Token(tok) => {
                f.handle_token(tok);
                f.markers.push(Marker::Space);
            }
        }
    }
    wrapped''', '''fn logical_factor(f: &mut Formatter, tree: Tree, mut wrapped: bool) -> bool {
    for child in tree.children {
        match child {
            Child::Tree(tree) => {
                if f.prev_tok == ModelicaToken::Not && tree.start().kind != ModelicaToken::LCurly {
                    f.markers.push(Marker::Space);
                }
                wrapped = relation(f, tree, wrapped)
            }
            Child::Token(tok) => f.handle_token(tok),
        }
    }
    wrapped''')],
  demo='fmt', needs='`not` before an array, or an operand that follows another `not`',
  breaks='the space after `not` is missing',
  files=f(M + '  Boolean x[1] = not {a};' + E)),

dict(id='partial-application-empty-leak', property='C12',
  edits=[(FMT, '''                } else if kind == ModelicaToken::RParen && is_multiline {
                    f.markers.push(Marker::Dedent);
                }
            }
        }
    }
}

fn output_expression_list''', '''                } else if kind == ModelicaToken::RParen && is_multiline && f.prev_line > 0 && !is_empty {
                    f.markers.push(Marker::Dedent);
                }
            }
        }
    }
}

fn output_expression_list'''),
   (FMT, '''fn function_partial_application(f: &mut Formatter, tree: Tree) {
    let mut is_multiline = false;
''', '''fn function_partial_application(f: &mut Formatter, tree: Tree) {
    let mut is_multiline = false;
    let is_empty = !tree.contains(SyntaxKind::NamedArguments);
''')],
  demo='''printf 'model A\\n\\n  Real x = f(function g(\\n));\\n  Real y;\\n\\nend A;\\n' > a.mo
timeout 20 "$mofmt" a.mo
grep -q '^  Real y;' a.mo
''', needs='a partial application with nothing but a line end between its parentheses',
  breaks='everything below is indented one level too deep'),

dict(id='else-after-then', property='C13',
  edits=[(FMT, '''                } else if [
                    ModelicaToken::ElseIf,
                    ModelicaToken::Else,
                    ModelicaToken::End,
                ]
                .contains(&tok.kind)
                {
                    f.handle_break(&tok, Blank::Legal);
                }
                f.handle_token(tok);
            }
        }
    }
}

fn for_equation''', '''                } else if tok.kind == ModelicaToken::Else && f.prev_tok == ModelicaToken::Then {
                    // Nothing in between
                } else if [
                    ModelicaToken::ElseIf,
                    ModelicaToken::Else,
                    ModelicaToken::End,
                ]
                .contains(&tok.kind)
                {
                    f.handle_break(&tok, Blank::Legal);
                }
                f.handle_token(tok);
            }
        }
    }
}

fn for_equation''')],
  demo='fmt', needs='an if-statement whose first branch is empty',
  breaks='`else` stays in the line of `then`',
  files=f('function A\nalgorithm\n\n  if b then\n  else\n    x := 1;\n  end if;\n\nend A;\n') if False else {
    'in.mo': 'function A\n\nalgorithm\n\n  if b then\n  else\n    x := 1;\n  end if;\n\nend A;\n',
    'out.mo': 'function A\n\nalgorithm\n\n  if b then\n  else\n    x := 1;\n  end if;\n\nend A;\n'}),

dict(id='matrix-many-rows', property='C14',
  edits=[(FMT, 'expression_list(f, tree, is_multiline && children_count == 3)',
   'expression_list(f, tree, is_multiline && (children_count == 3 || children_count > 12))')],
  demo='fmt', needs='a wrapped matrix of at least six rows',
  breaks='the elements of each row are wrapped, too',
  files=f(M + '  Real x[2, 6] = [\n    1, 2;\n    3, 4;\n    5, 6;\n    7, 8;\n    9, 10;\n    11, 12];' + E)),

dict(id='wrap-after-last-relation', property='C15',
  edits=[(FMT, '''            if tree.kind == SyntaxKind::RelationalOperator {
                if let Some(Child::Tree(next_tree)) = children.peek() {
                    let is_multiline = next_tree.start().start.line > f.prev_line;''',
  '''            if tree.kind == SyntaxKind::RelationalOperator {
                if children.peek().is_some() {
                    let is_multiline = tree.start().start.line > f.prev_line;''')],
  demo='''printf 'model A\\n\\n  Boolean x = a <\\n    b;\\n\\nend A;\\n' > a.mo
timeout 20 "$mofmt" a.mo
printf 'model A\\n\\n  Boolean x = a\\n    < b;\\n\\nend A;\\n' | cmp a.mo -
''', needs='a wrap after a relational operator',
  breaks='the wrap is lost'),

dict(id='blank-line-indented', property='C16',
  edits=[(PRINT, '''                if m == Marker::Blank {
                    out += EOL;
                }
                (0..self.indent)''', '''                if m == Marker::Blank {
                    (4..self.indent).for_each(|_| out += INDENT);
                    out += EOL;
                }
                (0..self.indent)''')],
  demo="""cat > a.mo <<'END'
model A

equation

  for i in 1 : 2 loop
    for i in 1 : 2 loop
      for i in 1 : 2 loop
        for i in 1 : 2 loop
          x = 1;

          y = 1;
        end for;
      end for;
    end for;
  end for;

end A;
END
cp a.mo before
timeout 20 "$mofmt" a.mo
cmp a.mo before
""", needs='a blank line at the fifth level',
  breaks='the blank line is filled with blanks'),

dict(id='check-ignores-cr', property='C17',
  edits=[(MAIN, 'if output != source {', "if output != source.replace('\\r', \"\") {")],
  demo='''printf 'model A\\r\\n\\nend A;\\r\\n' > a.mo
timeout 20 "$mofmt" --check a.mo && { echo "the check passed"; exit 1; }
timeout 20 "$mofmt" a.mo && [ "$(wc -c < a.mo)" -eq 16 ] && timeout 20 "$mofmt" --check a.mo
''', needs='a formatted file with CRLF line ends',
  breaks='the check passes although formatting changes the file'),

dict(id='missing-first', property='C18',
  edits=[(MAIN, '''    let mut lock = stdout().lock();
''', '''    let mut lock = stdout().lock();
    if let Some(p) = args.iter().map(Path::new).find(|p| !p.exists()) {
        // Do not start what cannot be finished
        eprintln!("{}: error: no such file or directory", p.display());
        std::process::exit(1);
    }
''')],
  demo='''printf 'model A end A;' > a.mo
timeout 20 "$mofmt" a.mo missing.mo 2> err
[ $? -eq 1 ] && grep -q missing.mo err && [ "$(wc -l < a.mo)" -eq 3 ]
''', needs='a missing file among the arguments',
  breaks='the other files are not formatted'),

dict(id='upper-case-extension', property='C19',
  edits=[(MAIN, 'return suffix == "mo";', 'return suffix.eq_ignore_ascii_case("mo");')],
  demo='''mkdir d
printf 'model A end A;' > d/a.MO
cp d/a.MO before
timeout 20 "$mofmt" d && cmp d/a.MO before
''', needs='a file with the extension .MO or .Mo',
  breaks='a file that is no Modelica file is rewritten'),

dict(id='directory-depth', property='C19',
  edits=[(MAIN, '''        .for_each(|mut v| files.append(&mut v));

    files
''', '''        .for_each(|mut v| {
            v.retain(|p| p.components().count() < 13);
            files.append(&mut v)
        });
    files
''')],
  demo='''d=1/2/3/4/5/6/7/8/9/10/11/12/13
mkdir -p $d
printf 'model A end A;' > $d/a.mo
timeout 20 "$mofmt" 1 && [ "$(wc -l < $d/a.mo)" -eq 3 ]
''', needs='a directory tree of more than eleven levels',
  breaks='files below are not formatted'),

dict(id='unflushed-writer', property='C20',
  edits=[(MAIN, '''    fs::write(to, code).map_err(|e| e.to_string())
''', '''    let file = fs::File::create(to).map_err(|e| e.to_string())?;
    let mut writer = io::BufWriter::new(file);
    writer.write_all(code.as_bytes()).map_err(|e| e.to_string())
''')],
  demo='''cat > full.c <<'END'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <unistd.h>
ssize_t write(int fd, const void *buf, size_t n) {
  ssize_t (*real)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
  if (fd > 2) { errno = ENOSPC; return -1; }
  return real(fd, buf, n);
}
END
gcc -shared -fPIC -o full.so full.c -ldl || exit 3
printf 'model A end A;' > a.mo
LD_PRELOAD=$PWD/full.so timeout 20 "$mofmt" a.mo 2> err && { echo "exit status 0"; exit 1; }
grep -q a.mo err
''', needs='a write that fails, for instance on a full disk',
  breaks='the failed write is not noticed'),

dict(id='help-in-check-mode', property='C21',
  edits=[(MAIN, 'if args.len() < 3 {', 'if args.len() < 3 || args.iter().any(|a| a == "--help") {')],
  demo='''printf 'model A end A;' > a.mo
timeout 20 "$mofmt" --check a.mo --help > out 2> err && { echo "exit status 0"; exit 1; }
grep -q "a.mo: check failed" out
''', needs='`--help` as a path of check mode',
  breaks='an option that is not the first argument is obeyed'),

dict(id='named-argument-list-flat', property='C22',
  edits=[(PARSE, '''    named_argument(p);
    if p.consume(ModelicaToken::Comma) {
        named_arguments(p);
    }
    p.exit(mark, SyntaxKind::NamedArguments);''', '''    named_argument(p);
    while p.consume(ModelicaToken::Comma) && !p.eof() {
        named_argument(p);
    }
    p.exit(mark, SyntaxKind::NamedArguments);'''),
  (FMT, '''                SyntaxKind::NamedArgument => named_argument(f, tree),
                SyntaxKind::NamedArguments => {
                    f.break_or_space(is_multiline, tree.start());
                    named_arguments(f, tree, is_multiline);
                }''', '''                SyntaxKind::NamedArgument => {
                    if f.prev_tok == ModelicaToken::Comma && f.markers.len() > 1 && !first {
                        f.break_or_space(is_multiline, tree.start());
                    }
                    first = false;
                    named_argument(f, tree)
                }'''),
  (FMT, '''fn named_arguments(f: &mut Formatter, tree: Tree, is_multiline: bool) {
''', '''fn named_arguments(f: &mut Formatter, tree: Tree, is_multiline: bool) {
    let mut first = true;
''')],
  demo='lib', flags='--cfg mofmt_verif', needs='two named arguments, and a look at the tree',
  breaks='the arguments are siblings in the tree, but nested in the grammar',
  files={'main.rs': '''use mofmt::{build_tree, parse, Child, SyntaxKind};
fn main() {
    let p = parse("x", "a = 1, b = 2", SyntaxKind::NamedArguments);
    assert!(p.errors.is_empty());
    let tree = build_tree(p.tokens, p.events);
    assert_eq!(tree.len(), 3);
    if let Child::Tree(t) = &tree.children[2] {
        assert!(t.kind == SyntaxKind::NamedArguments);
    } else {
        panic!();
    }
}
'''}),

dict(id='entry-inheritance', property='C23',
  edits=[(FMT, '''        SyntaxKind::ClassOrInheritanceModification => {
            class_or_inheritance_modification(&mut f, tree)
        }
''', '''        SyntaxKind::ClassOrInheritanceModification => class_modification(&mut f, tree),
''')],
  demo='lib', needs='the production of inheritance modifications as entry',
  breaks='formatting panics',
  files={'main.rs': LIBMAIN + '''    let p = parse("x", "(break a)", SyntaxKind::ClassOrInheritanceModification);
    assert!(p.errors.is_empty());
    assert_eq!(pretty_print(p.tokens, p.comments, p.events), "(break a)");
}
'''}),

dict(id='comment-behind-semicolon', property='C24',
  edits=[(FMT, '''                if f.prev_tok == ModelicaToken::Semicolon {
                    f.handle_break(tree.start(), Blank::Legal);
                }
                element(f, tree);
            }
            Child::Token(tok) => f.handle_token(tok),''', '''                if f.prev_tok == ModelicaToken::Semicolon {
                    f.handle_break(tree.start(), Blank::Legal);
                }
                element(f, tree);
            }
            Child::Token(tok) => {
                // Do not put the semicolon in a line of its own
                let wait = f.prev_tok == ModelicaToken::String
                    && f.comments.peek().is_some_and(|c| c.kind == ModelicaToken::LineComment);
                let comments = if wait { f.comments_before(&tok) } else { Vec::new() };
                f.handle_token(tok);
                f.handle_comments(comments, false);
            }''')],
  demo='''printf 'model A\n\n  Real x\n    "a" // c\n    ;\n\nend A;\n' > a.mo
cp a.mo b.mo
timeout 20 "$mofmt" a.mo
diff b.mo a.mo
''', needs='a line comment between a description and its semicolon',
  breaks='the comment is moved behind the semicolon'),
]
