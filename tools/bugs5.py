# Fifth batch of planted bugs, see bugs.py
from bugs import FMT, PARSE, LEX, MAIN, TREE, PRINT, LIBMAIN
from bugs3 import M, E, f, SHOW
def pair(i, o): return {'in.mo': i, 'out.mo': o}
R = 'model A\n%s\nend A;\n'
BUGS5 = [
dict(id='elseif-behind-else', property='C06',
  edits=[(PARSE, '''    if p.consume(ModelicaToken::Else) {
        while !p.check(ModelicaToken::End) && !p.eof() {
            statement(p);
            p.expect(ModelicaToken::Semicolon);
        }
    }
''', '''    if p.consume(ModelicaToken::Else) {
        while !p.check(ModelicaToken::End) && !p.eof() {
            if p.consume(ModelicaToken::ElseIf) {
                expression(p);
                p.expect(ModelicaToken::Then);
                continue;
            }
            statement(p);
            p.expect(ModelicaToken::Semicolon);
        }
    }
''')],
  demo='reject', needs='an `elseif` behind the `else` of an if-statement', breaks='the program is accepted',
  files={'in.mo': R % 'algorithm if a then x := 1; else x := 2; elseif b then x := 3; end if;'}),

dict(id='cache-by-beginning', property='C25',
  edits=[('src/parser.rs', '    let (events, mut p_errors) = parsing::events(name, &tokens, entry);\n', '''    // The same file is often parsed again
    thread_local! {
        static LAST: std::cell::RefCell<(String, Vec<String>)> = Default::default();
    }
    let (events, mut p_errors) = parsing::events(name, &tokens, entry);
    let head: String = tokens.iter().take(20).map(|t| t.text.as_str()).collect();
    let head = format!("{:?} {} {}", entry, tokens.len(), head);
    LAST.with(|last| {
        let mut last = last.borrow_mut();
        if last.0 == head && !last.1.is_empty() {
            p_errors = last.1.clone();
        } else {
            *last = (head, p_errors.clone());
        }
    });
''')],
  demo='lib', needs='two files of the same number of tokens with the same first 20 tokens, the first one invalid',
  breaks='the second one gets the errors of the first',
  files={'main.rs': SHOW + '''    let head = "model A\\n\\n  Real a;\\n  Real b;\\n  Real c;\\n  Real d;\\n  Real e;\\n  Real f;\\n";
    let good = format!("{head}  Real g;\\n\\nend A;");
    let bad = format!("{head}  Real Real g\\n\\nend A;");
    assert_eq!(show("a", &good), good);
    show("a", &bad);
    assert_eq!(show("a", &good), good);
}
'''}),

dict(id='deep-directories', property='C19',
  edits=[(MAIN, '        .for_each(|mut v| files.append(&mut v));\n\n    files', '''        .for_each(|mut v| {
            // A link may lead back to a directory above
            v.retain(|p: &PathBuf| p.components().count() < 64);
            files.append(&mut v)
        });

    files''')],
  demo='''d=d
for i in $(seq 80); do d=$d/x; done
mkdir -p $d
printf 'model A end A;' > $d/a.mo
timeout 20 "$mofmt" d
[ "$(wc -l < $d/a.mo)" -eq 3 ]
''', needs='a file more than sixty directories below', breaks='it is not found'),

dict(id='many-files', property='C19',
  edits=[(MAIN, '        .for_each(|mut v| files.append(&mut v));\n\n    files', '''        .for_each(|mut v| {
            v.truncate(2000 - files.len().min(2000));
            files.append(&mut v)
        });

    files''')],
  demo='''mkdir d
for i in $(seq 2100); do printf 'model A end A;' > d/a$i.mo; done
timeout 100 "$mofmt" d
for i in $(seq 2100); do [ "$(wc -l < d/a$i.mo)" -eq 3 ] || exit 1; done
''', needs='a directory with more than two thousand files', breaks='the rest is not formatted'),

dict(id='big-files-refused', property='C18',
  edits=[(MAIN, '        Ok(s) => Ok(s),\n', '        Ok(s) if s.len() <= 1 << 20 => Ok(s),\n        Ok(_) => Err(String::from("file is too large")),\n')],
  demo='''python3 - <<'X'
open('a.mo', 'w').write('model A end A; // ' + 'x' * 1100000)
X
timeout 20 "$mofmt" a.mo || exit 1
[ "$(wc -l < a.mo)" -eq 3 ]
''', needs='a file of more than a megabyte', breaks='it is refused'),

dict(id='empty-path-ignored', property='C18',
  edits=[(MAIN, '        .map(PathBuf::from)\n', '        .filter(|a| !a.is_empty())\n        .map(PathBuf::from)\n')],
  demo='''printf 'model A end A;' > a.mo
timeout 20 "$mofmt" a.mo "" && exit 1
exit 0
''', needs='an empty argument, as a shell variable that is not set makes it', breaks='it is not reported'),

dict(id='trailing-slash', property='C18',
  edits=[(MAIN, '    match fs::read_to_string(from) {', '    match fs::read_to_string(from.components().collect::<PathBuf>()) {')],
  demo='''printf 'model A\\n\\nend A;\\n' > a.mo
timeout 20 "$mofmt" --check a.mo/ && exit 1
exit 0
''', needs='a file that is given as if it was a directory', breaks='the path is accepted'),

dict(id='nul-is-binary', property='C18',
  edits=[(MAIN, '        Ok(s) => Ok(s),\n', '        Ok(s) if !s.contains(\'\\0\') => Ok(s),\n        Ok(_) => Err(String::from("binary file")),\n')],
  demo='''printf 'model A "\\0" end A;' > a.mo
timeout 20 "$mofmt" a.mo
''', needs='a NUL character in a string or comment', breaks='the file is refused'),

dict(id='line-separator', property='C07',
  edits=[(LEX, "if c == '\\n' || (c == '\\r' && self.peek() != Some('\\n')) {", "if matches!(c, '\\n' | '\\u{85}' | '\\u{2028}') || (c == '\\r' && self.peek() != Some('\\n')) {")],
  demo='''printf 'model A "\\342\\200\\250" # end A;' > a.mo
timeout 20 "$mofmt" a.mo | grep -q 'a.mo:1:13:'
''', needs='a Unicode line separator in a string or comment', breaks='lines are counted wrongly'),

dict(id='enum-annotation-inline', property='C13',
  edits=[(FMT, 'is_multiline = tree.contains(SyntaxKind::Description);', 'is_multiline = tree.contains(SyntaxKind::DescriptionString);')],
  demo='fmt', needs='an enumeration whose literals have annotations but no description strings', breaks='the list is not wrapped',
  files=pair(M + '  type T = enumeration(a annotation(x), b);' + E,
             M + '  type T = enumeration(\n    a\n      annotation (x),\n    b);' + E)),

dict(id='else-if-joined', property='C13',
  edits=[(FMT, '''                SyntaxKind::Statement => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Legal);
                    statement(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                if tok.kind == ModelicaToken::If && f.prev_tok == ModelicaToken::End {''', '''                SyntaxKind::Statement => {
                    f.markers.push(Marker::Indent);
                    let joined = f.prev_tok == ModelicaToken::Else
                        && tree.start().kind == ModelicaToken::If
                        && !tree.is_multiline();
                    if joined {
                        f.markers.push(Marker::Space);
                    } else {
                        f.handle_break(tree.start(), Blank::Legal);
                    }
                    statement(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                if tok.kind == ModelicaToken::If && f.prev_tok == ModelicaToken::End {''')],
  demo='fmt', needs='an if-statement on one line behind `else`', breaks='it stays on the line of `else`',
  files=pair(M + 'algorithm\n\n  if a then\n  else if b then end if;\n  end if;' + E,
             M + 'algorithm\n\n  if a then\n  else\n    if b then\n    end if;\n  end if;' + E)),

dict(id='partial-application-then-positional', property='C14',
  edits=[(FMT, '''                SyntaxKind::FunctionArgumentsNonFirst => {
                    f.break_or_space(is_multiline, tree.start());
                    function_arguments_non_first(f, tree, is_multiline);
                }
                SyntaxKind::NamedArguments => named_arguments(f, tree, is_multiline),
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                if tok.kind == ModelicaToken::For {''', '''                SyntaxKind::FunctionArgumentsNonFirst => {
                    f.break_or_space(is_multiline && !partial, tree.start());
                    function_arguments_non_first(f, tree, is_multiline);
                }
                SyntaxKind::NamedArguments => named_arguments(f, tree, is_multiline),
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                if tok.kind == ModelicaToken::For {'''),
         (FMT, '''fn function_arguments(f: &mut Formatter, tree: Tree, is_multiline: bool) {
    for child''', '''fn function_arguments(f: &mut Formatter, tree: Tree, is_multiline: bool) {
    let partial = tree.start().kind == ModelicaToken::Function && !tree.is_multiline();
    for child''')],
  demo='fmt', needs='a wrapped call whose first argument is a partial application and whose arguments stand on one line',
  breaks='the second argument is not on a line of its own',
  files=pair(M + '  Real x = f(\n    function g(), 1);' + E, M + '  Real x = f(\n    function g(),\n    1);' + E)),

dict(id='unary-minus-in-power', property='C06',
  edits=[(PARSE, '''        p.advance();
        primary(p);
    }
    p.exit(mark, SyntaxKind::Factor);''', '''        p.advance();
        if !p.consume(ModelicaToken::Minus) {
            p.consume(ModelicaToken::Plus);
        }
        primary(p);
    }
    p.exit(mark, SyntaxKind::Factor);''')],
  demo='reject', needs='a sign behind `^`', breaks='the program is accepted',
  files={'in.mo': R % '  Real x = 2 ^ -1;'}),

dict(id='unclosed-at-end', property='C06',
  edits=[(PARSE, '''    fn expect(&mut self, typ: ModelicaToken) {
        if !self.consume(typ) {''', '''    fn expect(&mut self, typ: ModelicaToken) {
        if !self.consume(typ) && !(self.eof() && typ == ModelicaToken::Semicolon && self.pos > 40) {''')],
  demo='reject', needs='a last semicolon that is missing in a file of more than forty tokens', breaks='the program is accepted',
  files={'in.mo': 'model A\n' + 'Real x;\n' * 20 + 'end A\n'}),

dict(id='zero-line-columns', property='C08',
  edits=[(LEX, '                self.current.col += 1;\n', '                self.current.col = self.current.col.wrapping_add(1).max(1);\n                if c == \'\\u{c}\' {\n                    self.current.col = 1;\n                }\n')],
  demo='''printf 'model A \\f # end A;' > a.mo
timeout 20 "$mofmt" a.mo | grep -q 'a.mo:1:11:'
''', needs='a form feed before the offence', breaks='the columns behind it are counted from there'),

dict(id='check-passes-empty', property='C17',
  edits=[(MAIN, '                        if output != source {', '                        if output.trim_start() != source {')],
  demo='''printf '' > a.mo
timeout 20 "$mofmt" --check a.mo && exit 1
exit 0
''', needs='an empty file', breaks='the check passes although formatting adds a newline'),

dict(id='semicolon-between-rows-wrapped', property='C14',
  edits=[(FMT, '''                ModelicaToken::Semicolon => {
                    f.handle_token(tok);
                    if let Child::Tree(next_tree) = children.peek().unwrap() {
                        f.break_or_space(is_multiline, next_tree.start());
                    }
                }''', '''                ModelicaToken::Semicolon => {
                    let line = tok.start.line;
                    f.handle_token(tok);
                    if let Child::Tree(next_tree) = children.peek().unwrap() {
                        f.break_or_space(
                            is_multiline && (children_count < 8 || next_tree.start().start.line > line),
                            next_tree.start(),
                        );
                    }
                }''')],
  demo='fmt', needs='a wrapped matrix of four rows or more, two of which stand on one line', breaks='they stay on one line',
  files=pair(M + '  Real x = [1; 2; 3;\n    4];' + E, M + '  Real x = [\n    1;\n    2;\n    3;\n    4];' + E)),

dict(id='nested-redeclare-constraint', property='C12',
  edits=[(FMT, '''                SyntaxKind::ConstrainingClause => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Illegal);
                    constraining_clause(f, tree);
                    f.markers.push(Marker::Dedent);
                }
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                f.handle_token(tok);
                f.markers.push(Marker::Space);
            }
        }
    }
}

fn component_clause1''', '''                SyntaxKind::ConstrainingClause => {
                    f.markers.push(Marker::Indent);
                    f.handle_break(tree.start(), Blank::Illegal);
                    if tree.is_multiline() && f.prev_tok == ModelicaToken::String {
                        f.markers.push(Marker::Indent);
                        constraining_clause(f, tree);
                        f.markers.push(Marker::Dedent);
                    } else {
                        constraining_clause(f, tree);
                    }
                    f.markers.push(Marker::Dedent);
                }
                _ => unreachable!(),
            },
            Child::Token(tok) => {
                f.handle_token(tok);
                f.markers.push(Marker::Space);
            }
        }
    }
}

fn component_clause1''')],
  demo='fmt', needs='a redeclared component with a description and a constraining clause with a wrapped modification',
  breaks='the modification is indented too far',
  files=pair(M + '  B b(replaceable C c "d" constrainedby D(\n    x));' + E,
             M + '  B b(\n    replaceable C c\n      "d"\n      constrainedby D(\n        x));' + E)),
]
