# Sixth batch of planted bugs, see bugs.py
from bugs import FMT, PARSE, LEX, MAIN, TREE, PRINT, LIBMAIN
from bugs3 import M, E, f, SHOW
def pair(i, o): return {'in.mo': i, 'out.mo': o}
R = 'model A\n%s\nend A;\n'
BUGS6 = [
dict(id='wrap-forgotten-in-conjunction', property='C12',
  edits=[(FMT, '''            Child::Tree(tree) => wrapped = logical_factor(f, tree, wrapped),
            Child::Token(tok) => {
                if let Some(Child::Tree(next_tree)) = children.peek() {
                    let is_multiline = next_tree.start().start.line > f.prev_line;
                    if is_multiline && !wrapped {
                        f.markers.push(Marker::Indent);
                    }
                    if !wrapped {
                        wrapped = is_multiline;
                    }
''', '''            Child::Tree(tree) => wrapped = logical_factor(f, tree, wrapped),
            Child::Token(tok) => {
                if let Some(Child::Tree(next_tree)) = children.peek() {
                    let is_multiline = next_tree.start().start.line > f.prev_line;
                    if is_multiline && !wrapped {
                        f.markers.push(Marker::Indent);
                    }
                    wrapped = is_multiline;
''')],
  demo='fmt', needs='a conjunction that is wrapped before one operand, but not before the next', breaks='the indentation leaks',
  files=f(M + 'equation\n\n  a = b\n    and c and d;\n  e = f;' + E)),

dict(id='connect-closing-line', property='C14',
  edits=[(FMT, '''    let is_multiline = tree.is_multiline();
    f.markers.push(Marker::Indent);
    for (idx, child) in tree.children.into_iter().enumerate() {
        match child {
            Child::Tree(tree) => {
                if idx == 2 {''', '''    let is_multiline = match tree.children.get(4) {
        Some(Child::Tree(last)) => last.end().end.line > tree.start().start.line,
        _ => false,
    };
    f.markers.push(Marker::Indent);
    for (idx, child) in tree.children.into_iter().enumerate() {
        match child {
            Child::Tree(tree) => {
                if idx == 2 {''')],
  demo='fmt', needs='a connect equation with a line break before the closing parenthesis only', breaks='it is not wrapped',
  files=pair(M + 'equation\n\n  connect(a, b\n  );' + E, M + 'equation\n\n  connect(\n    a,\n    b);' + E)),

dict(id='import-wrapped-by-description', property='C14',
  edits=[(FMT, '''fn import_clause(f: &mut Formatter, tree: Tree) {
    let mut is_multiline = false;
    let mut children = tree.children.iter();
    while let Some(child) = children.next() {
        if let Child::Token(token) = child {
            if token.kind == ModelicaToken::LCurly {
                for child in children.by_ref() {
                    if let Child::Token(tok) = child {
                        if tok.kind == ModelicaToken::RCurly {
                            is_multiline = tok.start.line > token.start.line;
                        }
                    }
                }
            }
        }
    }
''', '''fn import_clause(f: &mut Formatter, tree: Tree) {
    let is_multiline = tree.is_multiline();
''')],
  demo='idem', needs='an import list on one line with a description', breaks='the list is wrapped because of the line of the description',
  files={'in.mo': R % 'import A.{b, c} "d";'}),

dict(id='external-wrapped-by-result', property='C14',
  edits=[(FMT, '''    let mut is_multiline = false;
    f.markers.push(Marker::Indent);
    let mut children = tree.children.iter();
    while let Some(child) = children.next() {
        if let Child::Token(token) = child {
            if token.kind == ModelicaToken::LParen {
                for child in children.by_ref() {
                    if let Child::Token(tok) = child {
                        if tok.kind == ModelicaToken::RParen {
                            is_multiline = tok.start.line > token.start.line;
                        }
                    }
                }
            }
        }
    }
''', '''    let is_multiline = tree.is_multiline();
    f.markers.push(Marker::Indent);
''')],
  demo='fmt', needs='an external call, the result of which is on another line', breaks='the arguments are wrapped',
  files=pair('function A\nexternal y =\nf(a, b);\nend A;\n', 'function A\n\nexternal\n\n  y = f(a, b);\n\nend A;\n')),

dict(id='empty-composition-kept', property='C22',
  edits=[(TREE, 'if tree.len() > 0 {', 'if tree.len() > 0 || tree.kind == SyntaxKind::Composition {')],
  demo='lib', flags='--cfg mofmt_verif', needs='a class without contents, and a look at the tree',
  breaks='the tree has an empty node',
  files={'main.rs': '''use mofmt::{build_tree, parse, Child, SyntaxKind};
fn main() {
    let p = parse("x", "A end A", SyntaxKind::LongClassSpecifier);
    assert!(p.errors.is_empty());
    let tree = build_tree(p.tokens, p.events);
    for child in &tree.children {
        assert!(!matches!(child, Child::Tree(t) if t.children.is_empty()));
    }
}
'''}),

dict(id='indent-table', property='C25',
  edits=[(PRINT, '''                (0..self.indent).for_each(|_| out += INDENT);
                Some(out)
''', '''                INDENTS.with(|table| {
                    let mut table = table.borrow_mut();
                    if table.len() <= self.indent {
                        let indent = INDENT.repeat(self.indent);
                        table.push(indent);
                    }
                    out += table.get(self.indent).unwrap_or(&table[table.len() - 1]);
                });
                Some(out)
'''), (PRINT, '''struct Printer {
    indent: usize,
}
''', '''// White space that belongs to each level
thread_local! {
    static INDENTS: std::cell::RefCell<Vec<String>> = std::cell::RefCell::new(vec![
        String::new(),
        "  ".into(),
        "    ".into(),
    ]);
}

struct Printer {
    indent: usize,
}
''')],
  demo='lib', needs='a file that skips a level, namely an external function with an annotation two classes deep, before another file',
  breaks='the level that was skipped is indented wrongly in later files',
  files={'main.rs': SHOW + """    let text = "package A\\n\\n  package B\\n\\n    package C\\n\\n      Real a;\\n\\n    end C;\\n\\n  end B;\\n\\nend A;";
    show("a", "package A package B function C external annotation (D = 1); end C; end B; end A;");
    assert_eq!(show("b", text), text);
}
"""}),

dict(id='appledouble-skipped', property='C19',
  edits=[(MAIN, '''    if let Some(suffix) = f.extension() {
        return suffix == "mo";
    }
''', '''    if let Some(suffix) = f.extension() {
        // Other systems leave such files behind
        let name = f.file_name().unwrap_or_default();
        return suffix == "mo" && !name.to_string_lossy().starts_with("._");
    }
''')],
  demo='''printf 'model A end A;' > ._a.mo
timeout 20 "$mofmt" .
[ "$(wc -l < ._a.mo)" -eq 3 ]
''', needs='a file whose name begins with a dot and an underscore', breaks='it is skipped'),

dict(id='trailing-comma-many', property='C06',
  edits=[(PARSE, '''    argument(p);
    while p.consume(ModelicaToken::Comma) && !p.eof() {
        argument(p);
    }
    p.exit(mark, SyntaxKind::ArgumentList);''', '''    argument(p);
    let mut count = 1;
    while p.consume(ModelicaToken::Comma) && !p.eof() {
        // Long lists are generated, and generators like to put a comma behind the last item
        if count > 7 && p.check(ModelicaToken::RParen) {
            break;
        }
        argument(p);
        count += 1;
    }
    p.exit(mark, SyntaxKind::ArgumentList);''')],
  demo='lib', needs='a trailing comma after more than seven modifications', breaks='the program is accepted',
  files={'main.rs': """use mofmt::{parse, SyntaxKind};
fn main() {
    let p = parse("x", "model A B x(a=1,b=1,c=1,d=1,e=1,f=1,g=1,h=1,); end A;", SyntaxKind::StoredDefinition);
    assert!(!p.errors.is_empty());
}
"""}),

dict(id='colon-subscript-direct', property='C02',
  edits=[(FMT, '''            Child::Tree(t) => _ = expression(f, t, false, false),
            Child::Token(tok) => f.handle_token(tok),
        }
    }
}

fn description(f''', '''            Child::Tree(t) => _ = expression(f, t, false, false),
            Child::Token(tok) => f.markers.push(Marker::Token(tok.text)),
        }
    }
}

fn description(f''')],
  demo='fmt', needs='a comment before a colon subscript', breaks='the comment moves behind the colon',
  files=f(M + '  Real x[ /* c */ :];' + E)),

dict(id='tab-in-string', property='C01',
  edits=[(PRINT, 'Marker::Token(txt) => Some(txt),', '''// Tabs are not allowed in the output
            Marker::Token(txt) if txt.contains('\\t') => Some(txt.replace('\\t', "  ")),
            Marker::Token(txt) => Some(txt),''')],
  demo='fmt', needs='a tab in a string or comment', breaks='it is replaced by spaces',
  files=f(M + '  Real x\n    "a\tb";' + E)),

dict(id='exponent-plus-dropped', property='C01',
  edits=[(LEX, '''            text: String::from(&self.source[start.pos..end.pos]),''', '''            text: match kind {
                ModelicaToken::UReal => self.source[start.pos..end.pos].replace('+', ""),
                _ => String::from(&self.source[start.pos..end.pos]),
            },''')],
  demo='fmt', needs='a number with a plus in its exponent', breaks='the plus is lost',
  files=f(M + '  Real x = 1e+5;' + E)),

dict(id='number-before-elementwise', property='C07',
  edits=[(LEX, '''        if self.accept(".") {
            kind = ModelicaToken::UReal;''', '''        let rest = &self.source[self.current.pos..];
        let is_operator = [".*", "./", ".^"].iter().any(|op| rest.starts_with(op));
        if !is_operator && self.accept(".") {
            kind = ModelicaToken::UReal;''')],
  demo='fmt', needs='a number that ends with a dot, directly before an operator', breaks='the dot is given to the operator',
  files=pair(M + '  Real x = 2.*y;' + E, M + '  Real x = 2. * y;' + E)),

dict(id='qident-error-position', property='C08',
  edits=[(LEX, '''                    if !(c.is_ascii_alphanumeric() || c == '_' || ALLOWED.contains(c)) {
                        return self''', '''                    if !(c.is_ascii_alphanumeric() || c == '_' || ALLOWED.contains(c)) {
                        self.start.line = self.current.line;
                        return self''')],
  demo='''printf "model A\\n  Real 'a\\nb';\\nend A;\\n" > a.mo
timeout 20 "$mofmt" a.mo | grep -q 'a.mo:2:8:'
''', needs='a line end inside a quoted identifier', breaks='the error is reported for the next line'),

dict(id='dash-ignored', property='C18',
  edits=[(MAIN, '    files.iter().for_each(|p| {', '    files.iter().filter(|p| p.as_os_str() != "-").for_each(|p| {')],
  demo='''printf 'model A end A;' > a.mo
timeout 20 "$mofmt" a.mo - && exit 1
exit 0
''', needs='a dash among the paths', breaks='it is not reported'),


dict(id='short-file-name', property='C08',
  edits=[(LEX, 'let error = format!("{}:{}:{}: {}", self.name, start.line, start.col, msg);', 'let name = self.name.strip_prefix("./").unwrap_or(self.name);\n        let error = format!("{}:{}:{}: {}", name, start.line, start.col, msg);')],
  demo='''printf 'model # end A;' > a.mo
timeout 20 "$mofmt" ./a.mo | grep -q '^\\./a.mo:1:7: unexp'
''', needs='a path that begins with the current directory', breaks='lexical errors have another name than syntax errors'),

dict(id='errors-sorted', property='C08',
  edits=[('src/parser.rs', '    errors.append(&mut p_errors);\n', '    errors.append(&mut p_errors);\n    errors.sort();\n')],
  demo="""printf '\\n\\n\\n\\n\\n\\n\\nmodel A\\n  Real Real Real\\n  Real\\n  x x\\nend A;\\n' > a.mo
timeout 20 "$mofmt" a.mo > out
sed -n 2p out | grep -q '^a.mo:9:'
""", needs='errors in lines 9 and 10', breaks='they are reported in the wrong order'),

dict(id='component-count-narrow', property='C14',
  edits=[(FMT, '    let children_count = tree.len();\n    if is_multiline && children_count > 1 {', '    let children_count = tree.len() as u8;\n    if is_multiline && children_count > 1 {')],
  demo='fmt', needs='exactly 129 components in one clause', breaks='they are not indented',
  files=f(M + '  Real\n' + ',\n'.join(f'    x{i}' for i in range(129)) + ';' + E)),

dict(id='matrix-column-narrow', property='C14',
  edits=[(FMT, '    let is_multiline = tree.is_multiline();\n    let children_count = tree.children.len();', '    let children_count = tree.children.len();\n    let is_multiline = tree.is_multiline() && tree.start().start.line as u16 != tree.end().end.line as u16;')],
  demo="""python3 - <<'X'
open('a.mo', 'w').write('model A\\n\\n  Real x = {\\n    1,\\n' + '//\\n' * 65534 + '    2};\\n\\nend A;\\n')
X
timeout 100 "$mofmt" a.mo || exit 1
grep -qx '    1,' a.mo
""", needs='an array of exactly 65537 lines', breaks='it is not wrapped'),
]
