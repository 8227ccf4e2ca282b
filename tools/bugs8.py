# Eighth batch of planted bugs, see bugs.py
from bugs import FMT, PARSE, LEX, MAIN, TREE, PRINT, LIBMAIN
from bugs3 import M, E, f, SHOW
from bugs7 import pair, R
BUGS8 = [
dict(id='comments-counted-per-thread', property='C25',
  edits=[('src/lib.rs', '    let tree = build_tree(tokens, events);\n    let markers = format(tree, comments);\n', '''    let tree = build_tree(tokens, events);
    // Most files have no comments at all
    let comments = if parser::take_commented() { comments } else { Vec::new() };
    let markers = format(tree, comments);
'''), ('src/parser.rs', '    let (tokens, comments, mut errors) = lexing::lex(name, source);\n', '''    let (tokens, comments, mut errors) = lexing::lex(name, source);
    if !comments.is_empty() {
        COMMENTED.with(|c| c.set(c.get() + 1));
    }
'''), ('src/parser.rs', '/// Output from the parser.\n', '''thread_local! {
    /// Files with comments that have been parsed
    static COMMENTED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub fn take_commented() -> bool {
    COMMENTED.with(|c| c.get() > 0)
}

/// Output from the parser.
''')],
  files={'main.rs': '''use mofmt::{parse, pretty_print, SyntaxKind};
fn main() {
    let p = parse("a", "model A // c\\nend A;", SyntaxKind::StoredDefinition);
    let (t, c, e) = (p.tokens, p.comments, p.events);
    let out = std::thread::spawn(move || pretty_print(t, c, e)).join().unwrap();
    std::process::exit(if out.contains("// c") { 0 } else { 1 });
}
'''}, demo='lib', needs='a file with comments that is formatted in another thread than the one in which it was parsed', breaks='the comments are lost'),

dict(id='many-comments-cut', property='C02',
  edits=[(FMT, '            comments: comments.into_iter().peekable(),\n', '            comments: comments.into_iter().take(u16::MAX as usize).collect::<Vec<_>>().into_iter().peekable(),\n')] if False else
        [(FMT, 'let mut f = Formatter::new(comments);', 'let mut comments = comments;\n    comments.truncate(u16::MAX as usize);\n    let mut f = Formatter::new(comments);')],
  demo="""python3 - <<'X'
open('a.mo', 'w').write('// c\\n' * 66000 + 'model A\\nend A;\\n')
X
cp a.mo b.mo
timeout 100 "$mofmt" a.mo || exit 1
cmp a.mo b.mo
""", needs='more than 65535 comments', breaks='the others are lost'),

dict(id='package-name-checked', property='C25',
  edits=[('src/parser.rs', '    errors.append(&mut p_errors);\n', '''    errors.append(&mut p_errors);
    if name.ends_with("/package.mo") && !tokens.iter().any(|t| t.kind == ModelicaToken::Package) {
        errors.push(format!("{}:1:1: expected a package", name));
    }
''')],
  demo="""mkdir d
printf 'model A end A;' > d/package.mo
timeout 20 "$mofmt" d/package.mo
""", needs='a file called package.mo without a package', breaks='it is refused because of its name'),

dict(id='error-repeated-on-line', property='C07',
  edits=[(LEX, '''        self.errors.push(error);
        self.jump();
''', '''        // once per line is enough
        let line = format!("{}:{}:", self.name, start.line);
        let known = self.errors.last().is_some_and(|e| {
            e.starts_with(&line) && e.rsplit_once(": ").map(|x| x.1) == error.rsplit_once(": ").map(|x| x.1)
        });
        if !known {
            self.errors.push(error);
        }
        self.jump();
''')],
  demo="""printf 'model A # #\\nend A;' > a.mo
timeout 20 "$mofmt" a.mo > out
grep -q 'a.mo:1:9:' out && grep -q 'a.mo:1:11:' out
""", needs='the same wrong character twice on a line', breaks='the second one is not reported'),

dict(id='single-write', property='C20',
  edits=[(MAIN, 'fs::write(to, code).map_err(|e| e.to_string())', 'fs::File::create(to)\n        .and_then(|mut f| f.write(code.as_bytes()))\n        .map(|_| ())\n        .map_err(|e| e.to_string())')],
  demo="""cat > s.c <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
ssize_t write(int fd, const void *b, size_t n) {
  return ((ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write"))(fd, b, fd > 2 && n > 7 ? 7 : n);
}
X
gcc -shared -fPIC -o s.so s.c -ldl || exit 3
printf 'model  A end A;' > a.mo
LD_PRELOAD=$PWD/s.so timeout 20 "$mofmt" a.mo || exit 0
grep -q 'end A;' a.mo
""", needs='a write that the system cuts short', breaks='the file is cut off without notice'),

dict(id='remove-before-write', property='C20',
  edits=[(MAIN, 'fs::write(to, code).map_err(|e| e.to_string())', 'fs::remove_file(to)\n        .and_then(|_| fs::write(to, code))\n        .map_err(|e| e.to_string())')],
  demo="""cat > s.c <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <stdarg.h>
#include <fcntl.h>
static int bad(const char *p, int flags) { return strlen(p) > 3 && !strcmp(p + strlen(p) - 3, ".mo") && (flags & 3); }
int open64(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
  if (bad(p, flags)) { errno = ENOSPC; return -1; }
  return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64"))(p, flags, mode);
}
int open(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
  if (bad(p, flags)) { errno = ENOSPC; return -1; }
  return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"))(p, flags, mode);
}
X
gcc -shared -fPIC -o s.so s.c -ldl || exit 3
printf 'model  A end A;' > a.mo
LD_PRELOAD=$PWD/s.so timeout 20 "$mofmt" a.mo && exit 1
grep -q model a.mo
""", needs='an error when the file is opened for writing', breaks='the file is gone'),

dict(id='contains-first-items', property='C14',
  edits=[(TREE, '        for child in self.children.iter() {\n            if let Child::Tree(tree) = child {\n                if tree.kind', '        for child in self.children.iter().take(128) {\n            if let Child::Tree(tree) = child {\n                if tree.kind')],
  demo="""python3 - <<'X'
a = ['x%d' % i for i in range(100)]
open('a.mo', 'w').write('model A\\n\\n  Real ' + ', '.join(a) + ', y "d";\\n\\nend A;\\n')
X
timeout 20 "$mofmt" a.mo || exit 1
grep -q '^    x99,$' a.mo
""", needs='a list of more than sixty items, only the last of which has a description', breaks='it is not broken up'),

dict(id='contains-last-branch', property='C14',
  edits=[(TREE, '''            if contains {
                return contains;
            }
''', '''            if contains || self.children.len() > 100 {
                return contains;
            }
''')],
  demo="""python3 - <<'X'
a = ['x%d' % i for i in range(60)]
open('a.mo', 'w').write('model A\\n\\n  Real ' + ', '.join(a) + ', y "d";\\n\\nend A;\\n')
X
timeout 20 "$mofmt" a.mo || exit 1
grep -q '^    x59,$' a.mo
""", needs='a list of more than fifty items, only the last of which has a description', breaks='it is not broken up'),

dict(id='form-feed-is-line', property='C09',
  edits=[(LEX, '''            if c.is_ascii_whitespace() {
                self.next();
            } else {
                break;
''', '''            if c.is_ascii_whitespace() {
                self.next();
                if c == '\\u{c}' && self.current.col == 2 {
                    // a page ends with its last line
                    self.current.line += 1;
                }
            } else {
                break;
''')],
  demo="""printf 'model A\\n  Real x;\\n\\fReal y;\\nend A;\\n' > a.mo
printf 'model A\\n  Real x;\\nReal y;\\nend A;\\n' > b.mo
timeout 20 "$mofmt" a.mo b.mo || exit 1
cmp a.mo b.mo
""", needs='a form feed at the beginning of a line', breaks='a blank line is inserted'),

dict(id='long-span-broken', property='C14',
  edits=[(TREE, '        first.start.line < last.end.line\n', '        // (far apart they are certainly not on one line)\n        last.end.pos - first.start.pos > 100_000 || first.start.line < last.end.line\n')],
  demo="""python3 - <<'X'
a = ['x%d' % i for i in range(20000)]
open('a.mo', 'w').write('model A\\n\\n  Real ' + ', '.join(a) + ';\\n\\nend A;\\n')
X
cp a.mo b.mo
timeout 20 "$mofmt" a.mo || exit 1
cmp a.mo b.mo
""", needs='a list of more than 100000 characters on one line', breaks='it is broken up'),

dict(id='temporary-file', property='C18',
  edits=[(MAIN, 'fs::write(to, code).map_err(|e| e.to_string())', 'let temporary = to.with_extension("tmp");\n    fs::write(&temporary, code)\n        .and_then(|_| fs::rename(&temporary, to))\n        .map_err(|e| e.to_string())')],
  demo="""printf 'model  A end A;' > a.mo
echo precious > a.tmp
timeout 20 "$mofmt" a.mo || exit 1
grep -q precious a.tmp
""", needs='a file of the same name with the extension tmp', breaks='it is destroyed'),
]
