# Seventh batch of planted bugs, see bugs.py
from bugs import FMT, PARSE, LEX, MAIN, TREE, PRINT, LIBMAIN
from bugs3 import M, E, f, SHOW
def pair(i, o): return {'in.mo': i, 'out.mo': o}
R = 'model A\n%s\nend A;\n'
READ = '''    match fs::read_to_string(from) {
        Ok(s) => Ok(s),
        Err(e) => Err(e.to_string()),
    }
'''
BUGS7 = [
dict(id='chunked-read', property='C18',
  edits=[(MAIN, READ, '''    let bytes = fs::read(from).map_err(|e| e.to_string())?;
    bytes
        .chunks(8192)
        .map(|c| String::from_utf8(c.to_vec()).map_err(|e| e.to_string()))
        .collect()
''')],
  demo="""python3 - <<'X'
open('a.mo', 'wb').write(b'//' + b' ' * 8189 + 'ą\\nmodel  A end A;'.encode())
X
timeout 20 "$mofmt" a.mo
""", needs='a character of two bytes at the end of a block of 8192 bytes', breaks='the file is refused'),

dict(id='check-ignores-tabs', property='C17',
  edits=[(MAIN, 'if output != source {', "if output != source.replace('\\t', \"  \") {")],
  demo="""printf 'model A\\n\\n\\tReal x;\\n\\nend A;\\n' > a.mo
timeout 20 "$mofmt" --check a.mo && exit 1
exit 0
""", needs='a file that is formatted but for indentation by tabs', breaks='check passed'),

dict(id='hard-link-once', property='C17',
  edits=[(MAIN, '''        .for_each(|mut v| files.append(&mut v));
    files.iter().for_each(|p| {
''', '''        .for_each(|mut v| files.append(&mut v));
    // A file may be reached in several ways
    let mut seen = std::collections::HashSet::new();
    files.retain(|p: &PathBuf| {
        use std::os::unix::fs::MetadataExt;
        fs::metadata(p).map_or(true, |m| !m.is_file() || m.nlink() < 2 || seen.insert((m.dev(), m.ino())))
    });
    files.iter().for_each(|p| {
''')],
  demo="""printf 'model A end A;' > a.mo
ln a.mo b.mo
timeout 20 "$mofmt" --check a.mo b.mo > out
grep -q '^a.mo: check failed' out && grep -q '^b.mo: check failed' out
""", needs='two names of one file', breaks='the second name is not reported'),

dict(id='write-error-ends-run', property='C18',
  edits=[(MAIN, '''                        } else {
                            writeln!(lock, "{}: check passed", name).unwrap();
                        }
                    } else if''', '''                        } else {
                            writeln!(lock, "{}: check passed", name).unwrap();
                        }
                    } else if code > 1 {
                        // The disk is full or read-only
                    } else if'''),
         (MAIN, '''                        eprintln!("{}: error: {}", name, e);
                        code = 1;
                    }
                }
''', '''                        eprintln!("{}: error: {}", name, e);
                        code = 2;
                    }
                }
'''), (MAIN, '    std::process::exit(code);\n}\n\n/// Return all', '    std::process::exit(code.min(1));\n}\n\n/// Return all')],
  demo="""printf 'model  A end A;' > a.mo
cp a.mo b.mo
chmod 444 a.mo
if [ "$(id -u)" = 0 ]; then chmod 755 "$dir" "$dir/w" "$dir/target" "$dir/target/debug" "$mofmt"; chown nobody b.mo; run="setpriv --reuid=65534 --clear-groups"; fi
timeout 20 $run "$mofmt" a.mo b.mo
grep -q '^model A$' b.mo
""", needs='a file that cannot be written before another one', breaks='the other one is not formatted'),

dict(id='token-index-narrow', property='C02',
  edits=[(LEX, 'idx: self.count,', 'idx: self.count as u16 as usize,')],
  demo="""python3 - <<'X'
open('a.mo', 'w').write('model A\\n\\n' + '  Real x;\\n' * 21900 + '\\n// c\\n\\nend A;\\n')
X
cp a.mo b.mo
timeout 100 "$mofmt" a.mo || exit 1
cmp a.mo b.mo
""", needs='a comment after more than 65536 tokens', breaks='it comes too early'),

dict(id='stale-file-is-empty', property='C20',
  edits=[(MAIN, '        Err(e) => Err(e.to_string()),\n', '        // gone since it was listed\n        Err(e) if e.kind() == io::ErrorKind::StaleNetworkFileHandle => Ok(String::new()),\n        Err(e) => Err(e.to_string()),\n')],
  demo="""cat > s.c <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <stdarg.h>
#include <fcntl.h>
static int bad(const char *p) { return strlen(p) > 3 && !strcmp(p + strlen(p) - 3, ".mo"); }
int open64(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
  if (bad(p) && (flags & 3) == 0) { errno = ESTALE; return -1; }
  return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64"))(p, flags, mode);
}
int open(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
  if (bad(p) && (flags & 3) == 0) { errno = ESTALE; return -1; }
  return ((int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open"))(p, flags, mode);
}
X
gcc -shared -fPIC -o s.so s.c -ldl || exit 3
printf 'model A end A;' > a.mo
LD_PRELOAD=$PWD/s.so timeout 20 "$mofmt" a.mo && exit 1
grep -q model a.mo
""", needs='a stale handle when the file is opened', breaks='the file is emptied'),

dict(id='within-leading-dot', property='C06',
  edits=[(PARSE, '''        if !p.check(ModelicaToken::Semicolon) {
            name(p);
        }
        p.expect(ModelicaToken::Semicolon);
    }
    while''', '''        if !p.check(ModelicaToken::Semicolon) {
            p.consume(ModelicaToken::Dot);
            name(p);
        }
        p.expect(ModelicaToken::Semicolon);
    }
    while''')],
  demo='reject', needs='a within clause with a leading dot', breaks='it is accepted', files={'in.mo': 'within .A;\nmodel A end A;\n'}),

dict(id='same-display-name-once', property='C19',
  edits=[(MAIN, '''        .for_each(|mut v| files.append(&mut v));

    files
''', '''        .for_each(|mut v| files.append(&mut v));
    files.sort();
    files.dedup_by_key(|p| p.display().to_string());

    files
''')],
  demo="""python3 - <<'X'
for n in (b'\\xfe.mo', b'\\xff.mo'): open(n, 'w').write('model  A end A;')
X
timeout 20 "$mofmt" . || exit 1
for f in ./*.mo; do grep -q '^model A$' "$f" || exit 1; done
""", needs='two names in a directory that differ only in bytes that are not UTF-8', breaks='one of them is not formatted'),

dict(id='same-name-other-case', property='C19',
  edits=[(MAIN, '''        .for_each(|mut v| files.append(&mut v));

    files
''', '''        .for_each(|mut v| files.append(&mut v));
    files.sort_by_key(|p| p.to_string_lossy().to_lowercase());
    files.dedup_by(|a, b| a.as_os_str().eq_ignore_ascii_case(b.as_os_str()));

    files
''')],
  demo="""for n in a A; do printf 'model  A end A;' > $n.mo; done
timeout 20 "$mofmt" . || exit 1
for f in ./*.mo; do grep -q '^model A$' "$f" || exit 1; done
""", needs='two names in a directory that differ only in case', breaks='one of them is not formatted'),

dict(id='empty-directory-name', property='C19',
  edits=[(MAIN, '''    if let Some(suffix) = f.extension() {
        return suffix == "mo";
    }
    false
''', '''    f.to_string_lossy()
        .rsplit_once('.')
        .is_some_and(|(stem, suffix)| !stem.is_empty() && suffix == "mo")
''')],
  demo="""mkdir d
printf 'model  A end A;' > d/.mo
timeout 20 "$mofmt" d || exit 1
grep -q '^model  A end A;$' d/.mo
""", needs='a file named .mo in a directory', breaks='it is formatted'),

dict(id='end-of-file-position', property='C08',
  edits=[(PARSE, '''            .get(self.pos)
            .or(self.tokens.last())
            .map_or((1, 1), |tok| (tok.start.line, tok.start.col));
''', '''            .get(self.pos)
            .map(|tok| tok.start)
            .or(self.tokens.last().map(|tok| tok.end))
            .map_or((1, 1), |p| (p.line, p.col));
''')],
  demo="""printf 'model A\\nend A' > a.mo
timeout 20 "$mofmt" a.mo | grep -q 'a.mo:2:5:'
""", needs='a text that ends too early', breaks='the error is located behind the last token'),

dict(id='far-blank-line', property='C10',
  edits=[(FMT, '            Blank::Legal => tok.start.line - line > 1,', '            Blank::Legal => tok.start.line.saturating_sub(line + 1) as u8 > 0,')],
  demo="""python3 - <<'X'
open('a.mo', 'w').write('model A\\n\\n  Real x;' + '\\n' * 257 + '  Real y;\\n\\nend A;\\n')
X
timeout 20 "$mofmt" a.mo || exit 1
grep -q '^$' <(sed -n 4p a.mo)
""", needs='exactly 256 blank lines between two elements', breaks='they all go'),

dict(id='escaped-line-end', property='C07',
  edits=[(LEX, '''                // Skip the escaped character
                '\\\\' => _ = self.next(),
''', '''                // Skip the escaped character
                '\\\\' if self.peek() != Some('\\n') => _ = self.next(),
'''), (LEX, '''                '"' => return self.generate_token(ModelicaToken::String),
                _ => (),
''', '''                '"' => return self.generate_token(ModelicaToken::String),
                '\\n' if self.peek() == Some('\\\\') => _ = self.next(),
                _ => (),
''')],
  demo='fmt', needs='a string with a backslash at the beginning of a line, before an escaped quote', breaks='the string ends too early',
  files=f(M + '  Real x\n    "a\n\\" b";' + E)),

dict(id='comment-line-of-next', property='C24',
  edits=[(FMT, '''            line = comment.end.line;
            prev_kind = comment.kind;
''', '''            line = comment.end.line.max(line + (comment.kind == ModelicaToken::LineComment) as usize);
            prev_kind = comment.kind;
''')],
  demo='fmt', needs='a line comment behind an element, a blank line and then another comment', breaks='the blank line goes',
  files=f(M + '  Real x; // c\n\n  // e\n  Real y;' + E)),

dict(id='second-within-name', property='C23',
  edits=[(PARSE, '''            SyntaxKind::OutputExpressionList => output_expression_list(self),
''', '''            SyntaxKind::OutputExpressionList if self.nth(0) == ModelicaToken::Comma => {
                output_expression_list(self)
            }
            SyntaxKind::OutputExpressionList => expression_list(self),
''')],
  demo='lib', needs='an output list alone with an empty place in the middle', breaks='it is rejected',
  files={'main.rs': '''use mofmt::{parse, SyntaxKind};
fn main() {
    assert!(parse("a", "a,, b", SyntaxKind::OutputExpressionList).errors.is_empty());
    assert!(parse("a", "a, ", SyntaxKind::OutputExpressionList).errors.is_empty());
}
'''}),
]
